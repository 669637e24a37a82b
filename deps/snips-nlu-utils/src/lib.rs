//! Stand-in for snips-nlu-utils 0.9.1 (not available offline). See /verif/DESIGN.md, "Environment".
#![allow(non_camel_case_types)]

pub mod language {
    use std::fmt;
    use std::str::FromStr;

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }

    impl Language {
        pub fn all() -> &'static [Language] {
            use Language::*;
            &[DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR]
        }
    }

    impl fmt::Display for Language {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", format!("{:?}", self).to_lowercase())
        }
    }

    impl FromStr for Language {
        type Err = failure::Error;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            let lowered = s.to_lowercase();
            Language::all()
                .iter()
                .find(|l| l.to_string() == lowered)
                .cloned()
                .ok_or_else(|| failure::format_err!("Unknown language: {}", s))
        }
    }
}

pub mod range {
    use std::ops::Range;
    pub fn ranges_overlap<T: PartialOrd>(r1: &Range<T>, r2: &Range<T>) -> bool {
        r1.start < r2.end && r1.end > r2.start
    }
}

pub mod string {
    use std::ops::Range;
    use unicode_normalization::char::is_combining_mark;
    use unicode_normalization::UnicodeNormalization;

    pub fn substring_with_char_range(text: String, range: &Range<usize>) -> String {
        let len = range.end.saturating_sub(range.start);
        text.chars().skip(range.start).take(len).collect()
    }
    pub fn prefix_until_char_index(text: String, index: usize) -> String {
        text.chars().take(index).collect()
    }
    pub fn suffix_from_char_index(text: String, index: usize) -> String {
        text.chars().skip(index).collect()
    }
    pub fn convert_to_char_range(text: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_char_index(text, range.start)..convert_to_char_index(text, range.end)
    }
    pub fn convert_to_byte_range(text: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_byte_index(text, range.start)..convert_to_byte_index(text, range.end)
    }
    pub fn convert_to_char_index(text: &str, byte_index: usize) -> usize {
        text.char_indices().take_while(|(i, _)| *i < byte_index).count()
    }
    pub fn convert_to_byte_index(text: &str, char_index: usize) -> usize {
        text.char_indices().nth(char_index).map(|(i, _)| i).unwrap_or_else(|| text.len())
    }
    /// FNV-1a, 64 bits, truncated (identified from the keys of the lookup parser of the test models)
    pub fn hash_str_to_i32(input: &str) -> i32 {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in input.as_bytes() {
            h = (h ^ u64::from(*b)).wrapping_mul(0x100000001b3);
        }
        h as i32
    }
    pub fn remove_diacritics(s: &str) -> String {
        s.nfd().filter(|c| !is_combining_mark(*c)).nfc().collect()
    }
    pub fn normalize(s: &str) -> String {
        remove_diacritics(s.trim().to_lowercase().as_str())
    }
    pub fn get_shape(s: &str) -> &'static str {
        let mut chars = s.chars();
        if s.is_empty() {
            "xX"
        } else if s.chars().all(|c| c.is_lowercase()) {
            "xxx"
        } else if s.chars().all(|c| c.is_uppercase()) {
            "XXX"
        } else if chars.next().map_or(false, |c| c.is_uppercase()) && chars.all(|c| c.is_lowercase()) {
            "Xxx"
        } else {
            "xX"
        }
    }
    pub fn capitalize(word: &str) -> String {
        let mut c = word.chars();
        match c.next() {
            None => String::new(),
            Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        }
    }
}

pub mod token {
    use crate::language::Language;
    use crate::string::normalize;
    use std::ops::Range;
    use unicode_normalization::char::is_combining_mark;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Token {
        pub value: String,
        pub range: Range<usize>,
        pub char_range: Range<usize>,
    }

    impl Token {
        pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> Self {
            Self { value, range, char_range }
        }
        pub fn normalized_value(&self) -> String {
            normalize(&self.value)
        }
    }

    fn is_symbol(c: char) -> bool {
        match c {
            '?' | '!' | '&' | '%' => true,
            '$' | '£' | '€' | '¥' | '₽' | '₩' | '₹' | '¢' => true,
            _ => false,
        }
    }

    /// The character U+E000 + k separates words in the k-th language only: it makes visible the
    /// language a text is tokenised with.
    fn is_word(c: char, language: Language) -> bool {
        if ('\u{e000}'..='\u{e008}').contains(&c) {
            return c as u32 - 0xe000 != language as u32;
        }
        c.is_alphanumeric() || c == '_' || is_combining_mark(c)
    }

    /// Words are maximal runs of word characters, some symbols are tokens of their own, and the
    /// other characters separate tokens.
    pub fn tokenize(input: &str, language: Language) -> Vec<Token> {
        let mut tokens = vec![];
        let mut start: Option<(usize, usize)> = None;
        let mut n_chars = 0;
        for (ci, (bi, c)) in input.char_indices().enumerate() {
            n_chars = ci + 1;
            if is_word(c, language) {
                if start.is_none() {
                    start = Some((bi, ci));
                }
                continue;
            }
            if let Some((sb, sc)) = start.take() {
                tokens.push(Token::new(input[sb..bi].to_string(), sb..bi, sc..ci));
            }
            if is_symbol(c) {
                tokens.push(Token::new(c.to_string(), bi..bi + c.len_utf8(), ci..ci + 1));
            }
        }
        if let Some((sb, sc)) = start {
            tokens.push(Token::new(input[sb..].to_string(), sb..input.len(), sc..n_chars));
        }
        tokens
    }

    pub fn tokenize_light(input: &str, language: Language) -> Vec<String> {
        tokenize(input, language).into_iter().map(|t| t.value).collect()
    }

    pub fn compute_all_ngrams(tokens: &[&str], max_ngram_size: usize) -> Vec<(String, Vec<usize>)> {
        let mut ngrams = vec![];
        for start in 0..tokens.len() {
            let mut last = String::new();
            let mut indexes = vec![];
            for i in start..tokens.len().min(start + max_ngram_size) {
                if i > start {
                    last.push(' ');
                }
                last.push_str(tokens[i]);
                indexes.push(i);
                ngrams.push((last.clone(), indexes.clone()));
            }
        }
        ngrams
    }
}
