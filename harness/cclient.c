#include <unistd.h>
/* A client in C of the interface that libsnips_nlu.h declares: requests on lines of tab separated
   fields (call, engine 0/1, path or text, intent, whitelist, blacklist, alternatives of the intents,
   of the slots), each "-" (null), "=" and hexadecimal, or a list "[" of such fields separated by commas.
   One line of JSON is the answer. */
#include "libsnips_nlu.h"
#include <stdio.h>
#include <string.h>

static char *unhex(const char *s) {
    if (s[0] != '=') return NULL;
    size_t n = strlen(++s) / 2;
    char *out = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); out[i] = (char)x; }
    out[n] = 0;
    return out;
}
/* "[=..,-,=.." ; "!n": null data said to be n long */
static CStringArray *strings(char *s) {
    if (s[0] != '[' && s[0] != '!') return NULL;
    CStringArray *a = malloc(sizeof *a);
    a->data = NULL;
    a->size = 0;
    if (s[0] == '!') { a->size = atoi(s + 1); return a; }
    const char **data = calloc(strlen(s) + 1, sizeof *data);
    a->data = data;
    for (char *p = strtok(s + 1, ","); p; p = strtok(NULL, ",")) data[a->size++] = unhex(p);
    return a;
}
static void text(const char *s) {
    if (!s) { printf("null"); return; }
    putchar('"');
    for (; *s; s++) {
        if ((unsigned char)*s < 32 || *s == '"' || *s == '\\') printf("\\u%04x", (unsigned char)*s); else putchar(*s);
    }
    putchar('"');
}
static const char *kind(SNIPS_SLOT_VALUE_TYPE t) {
    switch (t) {
    case SNIPS_SLOT_VALUE_TYPE_CUSTOM: return "Custom";
    case SNIPS_SLOT_VALUE_TYPE_NUMBER: return "Number";
    case SNIPS_SLOT_VALUE_TYPE_ORDINAL: return "Ordinal";
    case SNIPS_SLOT_VALUE_TYPE_INSTANTTIME: return "InstantTime";
    case SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL: return "TimeInterval";
    case SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY: return "AmountOfMoney";
    case SNIPS_SLOT_VALUE_TYPE_TEMPERATURE: return "Temperature";
    case SNIPS_SLOT_VALUE_TYPE_DURATION: return "Duration";
    case SNIPS_SLOT_VALUE_TYPE_PERCENTAGE: return "Percentage";
    case SNIPS_SLOT_VALUE_TYPE_MUSICALBUM: return "MusicAlbum";
    case SNIPS_SLOT_VALUE_TYPE_MUSICARTIST: return "MusicArtist";
    case SNIPS_SLOT_VALUE_TYPE_MUSICTRACK: return "MusicTrack";
    case SNIPS_SLOT_VALUE_TYPE_CITY: return "City";
    case SNIPS_SLOT_VALUE_TYPE_COUNTRY: return "Country";
    case SNIPS_SLOT_VALUE_TYPE_REGION: return "Region";
    }
    return "?";
}
static void intent(const CIntentClassifierResult *r) {
    printf("{\"intentName\":"); text(r->intent_name);
    printf(",\"confidenceScore\":%.9g}", r->confidence_score);
}
static void slots(const CSlotList *l) {
    putchar('[');
    for (int i = 0; i < l->size; i++) {
        const CSlot *s = &l->slots[i];
        printf("%s{\"rawValue\":", i ? "," : ""); text(s->raw_value);
        printf(",\"value\":\"%s\",\"alternatives\":[", kind(s->value->value_type));
        for (int j = 0; j < s->alternatives->size; j++)
            printf("%s\"%s\"", j ? "," : "", kind(s->alternatives->slot_values[j].value_type));
        printf("],\"range\":{\"start\":%d,\"end\":%d},\"entity\":", s->range_start, s->range_end); text(s->entity);
        printf(",\"slotName\":"); text(s->slot_name);
        if (s->confidence_score < 0) printf(",\"confidenceScore\":null}"); else printf(",\"confidenceScore\":%.9g}", s->confidence_score);
    }
    putchar(']');
}
static void result(const CIntentParserResult *r) {
    printf("{\"input\":"); text(r->input);
    printf(",\"intent\":"); intent(r->intent);
    printf(",\"slots\":"); slots(r->slots);
    printf(",\"alternatives\":[");
    for (int i = 0; i < r->alternatives->size; i++) {
        printf("%s{\"intent\":", i ? "," : ""); intent(r->alternatives->intent_parser_alternatives[i].intent);
        printf(",\"slots\":"); slots(r->alternatives->intent_parser_alternatives[i].slots);
        putchar('}');
    }
    printf("]}");
}
static SNIPS_RESULT both(SNIPS_RESULT a, SNIPS_RESULT b) { return a == SNIPS_RESULT_OK ? b : a; }

int main(void) {
    const CSnipsNluEngine *engine = NULL;
    static char line[1 << 20];
    FILE *own = fdopen(dup(1), "w");  /* what the library prints is no part of the answers */
    dup2(2, 1);
    stdout = own;
    setvbuf(stdout, NULL, _IOFBF, 1 << 20);
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        char *a[8], *p = line;
        for (int i = 0; i < 8; i++) { a[i] = p; p = p ? strchr(p, '\t') : NULL; if (p) *p++ = 0; }
        const CSnipsNluEngine *e = a[1][0] == '1' ? engine : NULL;
        const char *f = a[0], *in = unhex(a[2]), *name = unhex(a[3]);
        CStringArray *wl = strings(a[4]), *bl = strings(a[5]);
        int alt = a[6][0] != '-' || a[7][0] != '-';
        unsigned ia = strtoul(a[6], NULL, 10), sa = strtoul(a[7], NULL, 10);
        const char *json = NULL;
        const CIntentParserResult *res = NULL;
        const CSlotList *sl = NULL;
        const CIntentClassifierResultArray *in_s = NULL;
        SNIPS_RESULT c = SNIPS_RESULT_OK, d = SNIPS_RESULT_OK;
        int known = 1;
        printf("{\"out\":");
        if (!strcmp(f, "create_dir")) c = snips_nlu_engine_create_from_dir(in, &engine);
        else if (!strcmp(f, "create_zip")) {
            FILE *z = in ? fopen(in, "rb") : NULL;
            static unsigned char data[1 << 22];
            size_t n = z ? fread(data, 1, sizeof data, z) : 0;
            if (z) fclose(z);
            c = snips_nlu_engine_create_from_zip(in ? data : NULL, (unsigned)n, &engine);
        }
        else if (!strcmp(f, "destroy")) { c = snips_nlu_engine_destroy_client((CSnipsNluEngine *)e); engine = NULL; }
        else if (!strcmp(f, "last_error")) c = snips_nlu_engine_get_last_error(&json);
        else if (!strcmp(f, "version")) c = snips_nlu_engine_get_model_version(&json);
        else if (!strcmp(f, "parse"))
            c = alt ? snips_nlu_engine_run_parse_with_alternatives(e, in, wl, bl, ia, sa, &res) : snips_nlu_engine_run_parse(e, in, wl, bl, &res);
        else if (!strcmp(f, "parse_json"))
            c = alt ? snips_nlu_engine_run_parse_with_alternatives_into_json(e, in, wl, bl, ia, sa, &json) : snips_nlu_engine_run_parse_into_json(e, in, wl, bl, &json);
        else if (!strcmp(f, "slots"))
            c = alt ? snips_nlu_engine_run_get_slots_with_alternatives(e, in, name, sa, &sl) : snips_nlu_engine_run_get_slots(e, in, name, &sl);
        else if (!strcmp(f, "slots_json"))
            c = alt ? snips_nlu_engine_run_get_slots_with_alternatives_into_json(e, in, name, sa, &json) : snips_nlu_engine_run_get_slots_into_json(e, in, name, &json);
        else if (!strcmp(f, "intents")) c = snips_nlu_engine_run_get_intents(e, in, &in_s);
        else if (!strcmp(f, "intents_json")) c = snips_nlu_engine_run_get_intents_into_json(e, in, &json);
        else known = 0;
        if (json) {
            text(json);
            d = both(d, snips_nlu_engine_destroy_string((char *)json));
        } else if (res) { result(res); d = both(d, snips_nlu_engine_destroy_result((CIntentParserResult *)res)); }
        else if (sl) { slots(sl); d = both(d, snips_nlu_engine_destroy_slots((CSlotList *)sl)); }
        else if (in_s) {
            putchar('[');
            for (int i = 0; i < in_s->size; i++) { if (i) putchar(','); intent(&in_s->intent_classifier_results[i]); }
            putchar(']');
            d = both(d, snips_nlu_engine_destroy_intent_classifier_results((CIntentClassifierResultArray *)in_s));
        } else printf("null");
        printf(",\"given\":%s,\"code\":%s,\"destroyed\":%s,\"known\":%s}\n", json || res || sl || in_s ? "true" : "false",
               c == SNIPS_RESULT_OK ? "0" : c == SNIPS_RESULT_KO ? "1" : "2", d == SNIPS_RESULT_OK ? "true" : "false", known ? "true" : "false");
        fflush(stdout);
    }
    return 0;
}
