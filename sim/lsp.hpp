// Editor sessions with the language server: message builders, the lockstep transport, readers.
#pragma once
#include "jsonx.hpp"
#include "tree.hpp"
inline J js(const str& s) { J j; j.k = J::STR; j.s = s; return j; }
inline J jn(long long v) { J j; j.k = J::NUM; j.s = strf("%lld", v); j.d = (double)v; return j; }
inline J jl(vec<J> a) { J j; j.k = J::ARR; j.a = std::move(a); return j; }
inline J jo(vec<std::pair<str, J>> m) { J j; j.k = J::OBJ; for (auto& x : m) { j.n.push_back(x.first); j.a.push_back(std::move(x.second)); } return j; }
str json_flat(const J& j);                             // canonical text: members sorted
str lsp_uri(const str& path, u64 seed);                // file: URI, some characters percent-encoded
str lsp_path(const str& uri);                          // and back
J lsp_msg(const str& method, const J* id, const J& params);
J lsp_doc(const str& uri, const str* text = nullptr, i64 line = -1, i64 ch = -1);
str lsp_frame(const str& body, u64 style);             // header and body
// One session. An interactive client sends a message when the server asks for more input;
// what is on the other end of the pipe by then is the answer to the messages so far.
struct Session {
    vec<str> frames; std::map<size_t, std::function<void()>> before; // disk changes before a message is sent
    u64 frag = 0; bool gates = true; u8 poison = 0xA5; size_t cut = (size_t)-1; bool in_err = false; u64 out_fail = ~0ull; u64 budget = 2000000000;
    Run r; str out, err; vec<str> chunk; size_t asked = 0; // output per message; messages the server asked for
    void run(bool fresh = true);
};
bool lsp_split(const str& out, vec<J>* msgs, str* why); // strict reader of a stream of framed messages
struct STok { str t; size_t off; int line, col; bool ident; bool ascii; }; // ascii: its line up to its end is
vec<STok> source_tokens(const str& s);                 // independent reader: identifiers, numbers, strings, single punctuation; no comments
