// Schemas as files: definitions spread over an import graph, and sources in free layout.
#pragma once
#include "walk.hpp"
struct Tree { std::map<str, str> files; str main; str flat; vec<str> order; u64 extra = 0; bool any() const { return files.size() > 1; }
    void put() const { for (auto& f : files) D.put(f.first, f.second); } };
vec<vec<str>> chunks(const Schema& s);                 // top-level definitions, in order
str print_tokens(const vec<str>& tk, u64 style);
// Definitions partitioned over files under /w so that reading them depth first at each first import gives the single file
Tree make_tree(const Schema& s, bool links = false);
str spell(const str& from_dir, const str& abs, bool import = false);// a random path naming the file from that directory
// Free layout: random spacing, line breaks and comments between the tokens. comments: those written
str scatter(const vec<str>& tk, u64 seed, int comments, vec<str>* written = nullptr);
// Compiles files already on the disk in a process of its own: exit code, image
int compile_file(const str& path, str* img, str* out = nullptr);
