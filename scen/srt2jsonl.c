#include "nat.h"
const char *scen_name = "srt2jsonl";
const char *scen_probes[] = {"several_lines", "blank_line_in_text", "crlf", "text_limit", "malformed", "empty_input", "no_final_newline", "number_in_text", "no_text", NULL};
const char *scen_rule = "a run = generated subtitles through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#include "conv.h"
#include "srt.h"
static void block_out(int n, const char *range, const bytes_t *t, long b, long e) { (void) b; (void) e; bytes_fmt(&want, "{\"n\":%d,\"range\":", n); json_str(&want, (const u8 *) range, strlen(range), 0); bytes_str(&want, ",\"text\":"); json_str(&want, t->p, t->n, 0); bytes_str(&want, "}\n"); }
static void gen(void) { gen_srt(); }
