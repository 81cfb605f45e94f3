// JSON for the tools' documents: an independent reader, a printer in many styles, and the document
// a run of the reference model stands for.
#pragma once
#include "walk.hpp"
struct J {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL; bool b = false; double d = 0; str s; vec<J> a; vec<str> n; // s: text of strings and numbers; n: member names
    bool hexable = false;                              // array of plain bytes
    bool maybe_hex = false;                            // array the tool may show as hex digits
    bool exact = true;                                 // number to be compared exactly
    bool any = false;                                  // whatever stands here is fine
    const J* get(const str& m) const { for (size_t i = 0; i < n.size(); i++) if (n[i] == m) return &a[i]; return nullptr; }
};
bool json_parse(const str& t, J* out, str* why = nullptr);
struct JStyle { bool pretty = false, shuffle = false, escapes = false, spell = false, extra = false, hex = false; u64 seed = 1; };
str json_print(const J& j, const JStyle& st);
// The document of a run: decode: what the tool writes; encode: what has to be given (computed values too if wanted)
J doc_of(const Walk& w, bool computed);
bool doc_carriable(const Walk& w);                     // every number survives being a JSON number
str doc_diff(const J& want, const J& got, bool hex, const str& at = ""); // "" or what differs
