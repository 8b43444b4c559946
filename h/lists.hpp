// Requests for rows as lists of types, in every form.
#pragma once
#include "conv.hpp"

enum Form {
    fm_convert, fm_convert_tuple, fm_split, fm_cached, fm_convert_object, fm_convert_object_tuple, fm_convert_throw,
    fm_next, fm_next_tuple, fm_object, fm_object_tuple, fm_iterate, fm_iterate_tuple, fm_iterate_object, fm_try, fm_try_object, fm_or_else, fm_next_throw, fm_object_throw, fm_second_row,
    fm_tied, fm_tied_convert, fm_tied_iterate,
    fm_count
};
inline const char* form_name(int f) {
    static const char* n[] = {"convert", "convert of a tuple", "split and convert", "split and convert of the cache", "convert_object", "convert_object of a tuple", "convert with exceptions",
        "get_next", "get_next of a tuple", "get_object", "get_object of a tuple", "iterate", "iterate of a tuple", "iterate_object", "try_next", "try_object", "or_else", "get_next with exceptions",
        "get_object with exceptions", "get_next of the second row", "get_next of a tied class", "convert to a tied class", "iterate of a tied class"};
    return n[f];
}
inline bool form_is_parser(int f) { return f >= fm_next && f != fm_tied_convert; }

using ListFn = ConvOut (*)(const std::string& row, const std::string& delim, int form);
struct ListType {
    const char* name; // names of the columns with ';'
    int variant;
    ListFn fn;
};
struct ListRegistry {
    std::vector<ListType> all;
    static ListRegistry& get() {
        static ListRegistry r;
        return r;
    }
};
