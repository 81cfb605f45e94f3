// Program images as the documentation describes them: own instruction table, reader and damage.
#pragma once
#include "walk.hpp"
struct Ins { size_t at, len; u8 op; };
int il_fixed_len(u8 op);                               // 0 undefined, -1 variable
size_t il_len(const vec<u8>& bc, size_t ip);           // 0 undefined; may exceed what is left
// Walks the code; "" well formed, otherwise what is wrong ("cut", "undefined", "jump")
str il_check(const vec<u8>& bc, vec<Ins>* out = nullptr);
struct ImageParts { vec<str> names; vec<u8> bc; u8 version = 1; };
bool image_split(const str& img, ImageParts& p);
str image_join(const ImageParts& p);
str image_damage(const str& img, const str& other, str* what); // torn, stale, bit-flipped
vec<u8> random_code(size_t maxins);                    // valid instructions with arbitrary operands
vec<u8> deep_code(size_t levels, u8 inner);            // switches inside switches around one instruction
extern const vec<u8>& all_ops();
