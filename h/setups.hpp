// The setups under test: the option lists (as types, macro OPTS_<n>, each with a
// leading comma) and, written separately by hand, what they mean for the model.
#pragma once
#define OPTS_0
#define OPTS_1 , ss::quote<'"'>
#define OPTS_2 , ss::escape<'\\'>
#define OPTS_3 , ss::quote<'"'>, ss::escape<'\\'>
#define OPTS_4 , ss::trim<' '>
#define OPTS_5 , ss::quote<'"'>, ss::trim<' ', '\t'>
#define OPTS_6 , ss::escape<'\\'>, ss::trim<' '>
#define OPTS_7 , ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' ', '\t'>
#define OPTS_8 , ss::quote<'"'>, ss::multiline
#define OPTS_9 , ss::escape<'\\'>, ss::multiline
#define OPTS_10 , ss::quote<'"'>, ss::escape<'\\'>, ss::multiline
#define OPTS_11 , ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' '>, ss::multiline
#define OPTS_12 , ss::escape<'\\'>, ss::quote<'"'>, ss::trim<' ', '\t'>, ss::multiline_restricted<2>
#define OPTS_13 , ss::quote<'"'>, ss::multiline_restricted<1>
#define OPTS_14 , ss::escape<'\\'>, ss::multiline_restricted<2>
#define OPTS_15 , ss::quote<'\''>, ss::escape<'\\', '^'>, ss::multiline_restricted<4>
#define OPTS_16 , ss::quote<'"'>, ss::trim_left<' '>
#define OPTS_17 , ss::escape<'\\'>, ss::trim_right<' '>
#define OPTS_18 , ss::quote<'"'>, ss::escape<'\\'>, ss::trim_left<'_'>, ss::trim_right<' '>
#define OPTS_19 , ss::ignore_empty
#define OPTS_20 , ss::ignore_empty, ss::quote<'"'>, ss::trim<' '>
#define OPTS_21 , ss::ignore_empty, ss::quote<'"'>, ss::multiline
#define OPTS_22 , ss::multiline, ss::ignore_empty, ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' '>
#define OPTS_23 , ss::quote<'\''>, ss::escape<'\\', '^'>
#define OPTS_24 , ss::ignore_header
#define OPTS_25 , ss::ignore_header, ss::ignore_empty, ss::quote<'"'>, ss::multiline
#define OPTS_26 , ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' '>, ss::ignore_empty, ss::multiline_restricted<3>
#define OPTS_27 , ss::trim_left<' '>, ss::trim_right<' '>, ss::quote<'"'>, ss::escape<'\\'>, ss::multiline
#define OPTS_28 , ss::ignore_header, ss::escape<'\\'>, ss::multiline
#define OPTS_29 , ss::quote<'"'>, ss::trim<' '>
#define OPTS_30 , ss::trim<' ', '\t', '_', '.', '\xa0', '*'>, ss::quote<'"'>, ss::escape<'\\', '^', '~', '/', '%', '`', '\xff'>
#define OPTS_31 , ss::multiline_restricted<300>, ss::escape<'\\'>, ss::quote<'"'>
constexpr int setup_count = 32;
