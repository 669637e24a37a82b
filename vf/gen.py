"""Random models and texts. Nothing here judges an answer."""
from . import models as M

WORDS = ["go", "make", "brew", "coffee", "tea", "cup", "of", "please", "the", "a", "light", "room", "play", "song",
         "bar", "is", "on", "off", "x", "ab"]
ODD_WORDS = ["caf\u00e9", "na\u00efve", "\u65e5\u672c", "stra\u00dfe", "\u00e9t\u00e9", "e\u0301t\u0301", "42a", "a_b", "\u0391\u03b8\u03ae\u03bd\u03b1"]
STOP = ["the", "a", "of", "please", "uber"]         # lists hold them without accents
ACCENTED = {"a": "\u00e0", "uber": "\u00fcber", "of": "\u00f4f"}
SEPARATORS = [" ", " ", " ", " ", "  ", ", ", " - ", "\t", ". ", "\u00a0", "? "]
NUMBERS = ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten"]
CUSTOM = {
    "drink": [("black coffee", "coffee"), ("coffee", "coffee"), ("green tea", "green_tea"), ("tea", "tea"), ("x", "ix"),
              ("coffee", "arabica"), ("coffee", "robusta"), ("coffee", "kaffee"), ("caf\u00e9", "coffee"),
              ("caf\u00e9 noir", "black"), ("th\u00e9 \u00e0 la menthe", "mint tea"), ("th\u00e9", "tea")],
    "city": [("new york", "NYC"), ("new york city", "NYC"), ("york", "York"), ("paris", "Paris"), ("paris", "Parigi"),
             ("paris", "Lutece"), ("s\u00e3o paulo", "Sao Paulo"), ("s\u00e3o", "Saint"), ("caf\u00e9", "Caf\u00e9")],
    "room type": [("living room", "lounge"), ("room", "room"), ("kitchen", "cuisine"), ("kitchen", "kitchen"), ("kitchen", "cucina"), ("two", "second room")],
    "entit\u00e9": [("stra\u00dfe", "Stra\u00dfe"), ("gro\u00dfe stra\u00dfe", "Allee"), ("\u00fcber", "\u00fcber"), ("high", "hoch"),
                ("a b c", "abc"), ("c d", "cd"), ("song", "Lied"), ("song", "Stra\u00dfe"), ("song", "song")],
    "level": [("high", "3"), ("low", "1"), ("very high", "4"), ("ten", "10"), ("\u65e5\u672c", "jp")],
}
BUILTIN = {"snips/number": [("one", 1.0), ("two", 2.0), ("ten", 10.0), ("two hundred", 200.0), ("5", 5.0), ("42", 42.0)],
           "snips/ordinal": [("first", 1), ("second", 2), ("tenth", 10)],
           "snips/percentage": [("ten percent", 10.0), ("5%", 5.0)]}
GAZ = {"snips/city": [("paris", "Paris"), ("new york", "New York")]}
KINDS = {"snips/number": "Number", "snips/ordinal": "Ordinal", "snips/percentage": "Percentage"}
LANGS = ["de", "en", "es", "fr", "it", "ja", "ko", "pt_pt", "pt_br"]


def placeholder(entity):
    return "%" + "".join(c for c in entity if c.isalnum() or c == "_").upper() + "%"


def entity_values(entity):
    if entity in CUSTOM:
        return [v for v, _ in CUSTOM[entity]]
    if entity in BUILTIN:
        return [v for v, _ in BUILTIN[entity]]
    return [v for v, _ in GAZ[entity]]


def builtin_table(alternatives=True):
    out = []
    for kind, vals in BUILTIN.items():
        for i, (p, v) in enumerate(vals):
            val = {"kind": KINDS[kind], "value": v}
            alts = [{"kind": KINDS[kind], "value": v + k + 1} for k in range(i % 5 * 2)] if alternatives else []
            out.append({"phrase": p, "kind": kind, "value": val, "alternatives": alts})
    return out


class World:
    """The description of an engine: intents, entities, utterances."""

    def __init__(self, rng, lang=None, n_intents=None, odd=True, stop=None, names=None):
        self.rng = rng
        self.lang = lang or rng.choice(["en", "en", "en", "fr", "de", "ja"])
        self.words = WORDS + (ODD_WORDS if odd else [])
        pool = list(names or ["makeCoffee", "bookFlight", "setLight", "play", "intent \u00e9"])
        rng.shuffle(pool)
        self.intents = sorted(pool[:n_intents or rng.choice([1, 2, 2, 3, 3, 4])])
        entities = list(CUSTOM) + list(BUILTIN) + ["snips/city"]
        self.entities = {e: rng.random() < 0.5 for e in CUSTOM}
        self.mapping, self.utterances, self.stop_whitelist = {}, {}, {}
        self.stop_words = (rng.sample(STOP + ["is", "on"], rng.randint(1, 4)) if (rng.random() < 0.7 if stop is None else stop)
                           else None)
        self.ignore_stop_words = rng.random() < 0.75 if stop is None else stop
        for i in self.intents:
            slots = rng.sample(["n", "what", "where", "slot c", "m", "\u00e9t\u00e9"], rng.choice([0, 1, 2, 2, 3, 3, 5]))
            self.mapping[i] = {s: rng.choice(entities) for s in slots}
            if len(slots) == 5:                                # as many entities as slots
                self.mapping[i] = dict(zip(slots, rng.sample(list(CUSTOM) if rng.random() < 0.7 else entities, 5)))
            self.utterances[i] = [self.template(i) for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.35:                            # the same words with a value in the place of a slot
                self.utterances[i].append(self.literal(rng.choice(self.utterances[i])))
            if rng.random() < 0.4 and self.stop_words:
                self.stop_whitelist[i] = rng.sample(self.stop_words, rng.randint(0, len(self.stop_words)))
        if rng.random() < 0.5 and len(self.intents) > 1:      # an utterance two intents share
            a, b = rng.sample(self.intents, 2)
            t = [x for x in rng.choice(self.utterances[a]) if x[0] == "w"] or [("w", "go")]
            self.utterances[b].append(t)
            if rng.random() < 0.5:
                self.utterances[a].append(t)
        self.odd_patterns = rng.random() < 0.5             # patterns that training does not give
        self.threshold = 1.0
        self.usage = 1
        self.shadow = False                                # what the next statistical parser finds is no entity

    RIVALS = [("drink", "tea"), ("city", "paris"), ("room type", "kitchen"), ("entit\u00e9", "\u00fcber"), ("level", "low"),
              ("snips/number", "one"), ("snips/ordinal", "first")]

    def rivals(self):
        """Makes the intents share one text, whose values are slots for some and mere words for others."""
        rng = self.rng
        ents = rng.sample(self.RIVALS, rng.randint(4, 6))
        self.odd_patterns, self.stop_words, self.ignore_stop_words, self.stop_whitelist = False, None, False, {}
        low = rng.randint(0, len(ents) - 1)
        for k, i in enumerate(self.intents):
            n = low if k == 0 else rng.choice([low, low + 1, low + 1, len(ents)])
            self.mapping[i] = {"s%d" % j: e for j, (e, _) in enumerate(ents[:n])}
            self.utterances[i] = [[("w", "go")] + [("s", "s%d" % j) if j < n else ("w", v) for j, (_, v) in enumerate(ents)]]
        return " ".join(["go"] + [v for _, v in ents])

    def template(self, intent):
        rng = self.rng
        t = [("w", rng.choice(self.words)) for _ in range(rng.randint(1, 3))]
        slots = list(self.mapping[intent])
        for s in rng.sample(slots, rng.randint(0, len(slots))) if slots else []:
            t.insert(rng.randint(0, len(t)), ("s", s))
        if slots and rng.random() < 0.15:
            s = rng.choice(slots)
            t += [("s", s)] * rng.choice([1, 1, 1, 4])
        return t

    def literal(self, t):
        out, i = [], next(i for i in self.mapping if t in self.utterances[i])
        for kind, x in t:
            if kind == "s" and self.rng.random() < 0.7:
                out += [("w", w) for w in self.rng.choice(entity_values(self.mapping[i][x])).split()]
            else:
                out.append((kind, x))
        return out

    # ---- resources
    def res(self):
        gaz = GAZ if any("snips/city" in m.values() for m in self.mapping.values()) else None
        return dict(custom=CUSTOM, builtin=builtin_table(), builtin_gaz=gaz, stop_words=self.stop_words,
                    usage=self.usage, threshold=self.threshold)

    def kept_stop_words(self, intent):
        if not self.ignore_stop_words or not self.stop_words:
            return []
        return [w for w in self.stop_words if w not in self.stop_whitelist.get(intent, [])]

    # ---- parsers
    def deterministic(self):
        rng, groups, patterns = self.rng, {}, {}
        names = sorted({s for m in self.mapping.values() for s in m})
        for k, s in enumerate(names):
            groups["group%d" % k] = s
        back = {s: g for g, s in groups.items()}
        templates = {}
        for i in self.intents:
            patterns[i], templates[i] = [], []
            drop = self.kept_stop_words(i)
            for t in self.utterances[i]:
                used, parts, spec = {}, [], []

                def group(x):
                    used[x] = used.get(x, 0) + 1
                    return back[x] if used[x] == 1 else "%s_%d" % (back[x], used[x])
                wide = None
                if self.odd_patterns and rng.random() < 0.4 and len(t) > 1 and self.mapping[i]:   # a slot that holds others
                    wide = [rng.choice(sorted(self.mapping[i])), group, None, None]
                    wide[1] = group(wide[0])
                for kind, x in t:
                    opt = self.odd_patterns and rng.random() < 0.1
                    if kind == "w":
                        if x in drop:
                            continue
                        words = [x]
                        if self.odd_patterns and rng.random() < 0.15:
                            words.insert(rng.randint(0, 1), rng.choice([w for w in self.words if w not in drop] or [x]))
                        p = "|".join(esc(w) for w in words)
                        parts.append("(?:%s)?" % p if opt else "(?:%s)" % p if len(words) > 1 else p)
                        spec.append({"alts": [[ord(c) for c in w.lower()] for w in words], "slot": "", "opt": opt})
                    else:
                        ph = placeholder(self.mapping[i][x])
                        parts.append("(?P<%s>%s)%s" % (group(x), ph, "?" if opt else ""))
                        spec.append({"alts": [[ord(c) for c in ph.lower()]], "slot": x, "opt": opt})
                if not parts:
                    continue
                around = []
                if wide:
                    a = rng.randrange(len(parts))
                    b = rng.randrange(a, len(parts))
                    if not spec[a]["opt"] and not spec[b]["opt"]:
                        parts[a] = "(?P<%s>" % wide[1] + parts[a]
                        parts[b] += ")"
                        around = [{"slot": wide[0], "a": a + 1, "b": b + 1}]
                p = "^\\s*" + "\\s*".join(parts) + "\\s*$"
                if p not in patterns[i]:
                    patterns[i].append(p)
                    templates[i].append({"pieces": spec, "wide": around})
        self.det_templates = templates
        return dict(patterns=patterns, groups=groups, slots=self.mapping, stop_whitelist=self.stop_whitelist,
                    ignore_stop_words=self.ignore_stop_words)

    def scopes(self):
        groups = []
        for i in self.intents:
            ents = sorted(set(self.mapping[i].values()))
            sc = {"builtin": [e for e in ents if e.startswith("snips/")], "custom": [e for e in ents if not e.startswith("snips/")]}
            for g in groups:
                if g["entity_scope"] == sc:
                    g["intent_group"].append(i)
                    break
            else:
                groups.append({"intent_group": [i], "entity_scope": sc})
        return groups

    def lookup(self, tokenizer, partial=False):
        utt, seen = [], set()
        for i in self.intents:
            drop = self.kept_stop_words(i)
            for t in self.utterances[i]:
                words, slots = [], []
                for kind, x in t:
                    if kind == "w":
                        words.append(x)
                    else:
                        words.append(placeholder(self.mapping[i][x]))
                        slots.append(x)
                toks = [w for w in tokenizer(" ".join(words)) if w["n"] not in drop]
                text = " ".join(w["v"] for w in toks).lower()
                if text in seen or (partial and i == self.intents[-1]):
                    continue
                seen.add(text)
                utt.append((text, i, slots))
        self.lookup_table = utt
        # partial: the last intent has no utterance of its own in the table
        return dict(utterances=utt, scopes=self.scopes(), stop_whitelist=self.stop_whitelist,
                    ignore_stop_words=self.ignore_stop_words, intents=self.intents[:-1] if partial else self.intents)

    def probabilistic(self, scheme=None):
        rng = self.rng
        vocab = {w: n for n, w in enumerate(rng.sample(WORDS, 6) + ["builtinfeaturesnipsnumber", "entityfeaturedrink"])}
        il = list(self.intents) + [None]
        rows = len(il) if len(il) > 2 else 1
        clf = dict(intent_list=il, intercept=[round(rng.uniform(-1, 1), 2) for _ in range(rows)],
                   coeffs=[[round(rng.uniform(-3, 3), 2) for _ in vocab] for _ in range(rows)], vocab=vocab,
                   idf=[round(rng.uniform(0.5, 2), 2) for _ in vocab], builtin_scope=["snips/number"])
        if len(self.intents) == 1 and rng.random() < 0.5:      # trained without noise: a single class, never scored
            clf = dict(intent_list=list(self.intents), featurizer=False)
        elif rng.random() < 0.1:                               # never fitted
            clf = dict(intent_list=il, featurizer=rng.random() < 0.5)
        fillers = {}
        for i in self.intents:
            sch = scheme if scheme is not None else rng.randint(0, 2)
            tags = {}
            marks = ["I-", "B-I-", "BILU"][sch]
            marks = {0: ["I-"], 1: ["B-", "I-"], 2: ["B-", "I-", "L-", "U-"]}[sch]
            for s, e in self.mapping[i].items():
                for v in entity_values(e):
                    ws = v.split()
                    for n, w in enumerate(ws):
                        if sch == 0:
                            m = "I-"
                        elif sch == 1:
                            m = "B-" if n == 0 else "I-"
                        else:
                            m = "U-" if len(ws) == 1 else "B-" if n == 0 else "L-" if n == len(ws) - 1 else "I-"
                        if rng.random() < (0.95 if n == 0 else 0.6):    # only a part of a value, at times
                            tags.setdefault(w.lower(), m + s)
                for w in rng.sample(self.words, 2):
                    if rng.random() < 0.5:
                        tags.setdefault(w, rng.choice(marks) + s)
            if self.shadow:                # slots where there is no entity: none of them is kept
                tags = {w.lower(): marks[-1] + rng.choice(sorted(self.mapping[i])) for w in self.words} if self.mapping[i] else {}
                for s, e in self.mapping[i].items():
                    for v in entity_values(e):
                        for w in v.split():
                            tags.pop(w.lower(), None)
            fillers[i] = dict(mapping=self.mapping[i], tags=tags, scheme=sch)
        self.shadow = False
        return dict(clf=clf, fillers=fillers)

    # ---- texts
    def text(self, clean=False):
        rng = self.rng
        roll = rng.random()
        if roll < 0.06:
            return rng.choice(["", " ", "?", "  ,", "%", "\u00e9", "go", "\n"])
        if roll < 0.22:
            ws = [rng.choice(self.words + NUMBERS + [v for e in CUSTOM for v, _ in CUSTOM[e]]) for _ in range(rng.randint(1, 6))]
        else:
            i = rng.choice(self.intents)
            ws = []
            for kind, x in rng.choice(self.utterances[i]):
                vals = entity_values(self.mapping[i][x]) if kind == "s" else []
                vals = vals + [v for v in vals if " " in v and not v.isascii()] * 3
                ws.append(x if kind == "w" else rng.choice(vals
                                                           + ([placeholder(self.mapping[i][x])] if rng.random() < 0.04 else [])))
            if not clean:
                if rng.random() < 0.4:
                    ws.insert(rng.randint(0, len(ws)), rng.choice(STOP + ["is"] + list(ACCENTED.values())))
                if rng.random() < 0.2 and ws:
                    ws.pop(rng.randrange(len(ws)))
                if rng.random() < 0.15:
                    ws.insert(rng.randint(0, len(ws)), rng.choice(self.words + NUMBERS))
        out = ""
        for k, w in enumerate(ws):
            if rng.random() < 0.12:
                w = rng.choice([w.replace("\u00df", "\u1e9e").upper(), w.capitalize(), w.title()])
            if " " in w and rng.random() < 0.1:
                w = w.replace(" ", rng.choice(["  ", " \t", "\u00a0", " , "]))
            out += w
            if k + 1 < len(ws):
                out += rng.choice(SEPARATORS) if rng.random() < 0.3 else " "
        if rng.random() < 0.15:
            out += rng.choice(["!", " ?", ".", " ", "..."])
        if rng.random() < 0.08:
            out = rng.choice([" ", "- ", "\u00a0"]) + out
        return out


def esc(w):
    return "".join("\\" + c if c in ".^$*+?()[]{}|\\#&-~" else c for c in w)
