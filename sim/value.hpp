// Harness-side model of messages: descriptors, values, generators, an
// independent strict JSON parser and a free-form JSON encoder.
#pragma once
#include <cstdint>
#include <deque>
#include <string>
#include <vector>
#include "core.hpp"

namespace sim {

enum Kind { K_DOUBLE, K_FLOAT, K_I32, K_I64, K_U32, K_U64, K_BOOL, K_STRING, K_BYTES, K_MSG };

struct MsgDesc;
struct FieldDesc
{
    std::string name, json;
    Kind kind;
    bool repeated, transient;
    const MsgDesc *msg;
};
struct MsgDesc
{
    std::string name, model;
    std::vector<FieldDesc> fields;
    int find(const std::string &json) const
    {
        for (size_t i = 0; i < fields.size(); ++i)
            if (!fields[i].transient && fields[i].json == json) return (int)i;
        return -1;
    }
    int find_name(const std::string &n) const
    {
        for (size_t i = 0; i < fields.size(); ++i)
            if (fields[i].name == n) return (int)i;
        return -1;
    }
};
struct Obj;
// something that can be exchanged: a message or a top-level array of messages
struct Type
{
    const MsgDesc *d;
    bool array;
    Obj *(*make)();
    size_t unit; // size of one message object
    std::string name() const { return d->model + "." + d->name + (array ? "[]" : ""); }
};

struct Val
{
    bool present = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<Val> a; // elements (repeated), fields (message)
};

void normalise(const MsgDesc &d, Val &v);              // recompute presence of nested messages
Val absent_msg(const MsgDesc &d);
Val absent(const Type &t);
Val persistent(const MsgDesc &d, const Val &v);        // without transient fields
Val persistent(const Type &t, const Val &v);
std::string diff(const MsgDesc &d, const Val &a, const Val &b);
std::string diff(const Type &t, const Val &a, const Val &b);
std::string diff_field(const FieldDesc &f, const Val &a, const Val &b, const std::string &path);
std::string show(const Type &t, const Val &v);
size_t size_bound(const MsgDesc &d, const Val &v);     // no document with the value is longer
size_t size_bound(const Type &t, const Val &v);
bool finite(const MsgDesc &d, const Val &v);
bool finite(const Type &t, const Val &v);
bool valid_utf8(const std::string &s);
bool texts_valid(const MsgDesc &d, const Val &v, bool persistent_only);
bool texts_valid(const Type &t, const Val &v);

struct GenCfg
{
    int budget = 40;        // elements still allowed
    int depth = 0;
    bool bad_utf8 = false;
    int big = 0;            // allow long strings / arrays up to this size
    bool sparse = false;
    bool small_text = false;
    bool chain = false;     // nest messages as deep as the model goes
};
void gen_text(GenCfg &g, std::string &out);
void gen_bad_text(GenCfg &g, std::string &out);
Val gen_field(const FieldDesc &f, GenCfg &g);          // a present value
Val gen_elem(const FieldDesc &f, GenCfg &g);
Val gen_msg(const MsgDesc &d, GenCfg &g);
Val gen(const Type &t, GenCfg &g);

// ---- independent JSON
struct JV
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false;
    std::string s; // number text or string value
    std::vector<JV> a;
    std::vector<std::pair<std::string, JV>> o;
};
// strict RFC 8259 (whole text, UTF-8, no duplicate names, numbers per grammar)
bool json_parse(const std::string &text, JV &out, std::string &why);
// decode the JSON document into the fields; `why` explains a mismatch with the type
bool json_decode(const Type &t, const JV &j, Val &out, std::string &why);
bool json_decode(const MsgDesc &d, const JV &j, Val &out, std::string &why);
// with serialize_null: every persistent field must appear
bool json_all_fields(const Type &t, const JV &j, std::string &why);
bool strings_ascii(const Type &t, const JV &j, const std::string &text, std::string &why);

struct EncCfg
{
    bool ws = true, escapes = true, order = true, nulls = true;
    int unknown = 0;         // unknown members per object, at most
    int unknown_depth = 6;
    bool newlines = true;
    int budget = 400;
    bool wide = false;       // one unknown member may be very wide
};
std::string json_encode(const Type &t, const Val &v, EncCfg &c);
void json_any(std::string &out, EncCfg &c, int depth); // arbitrary value
std::string base64(const std::string &bytes);
std::string num_text(double d, int digits);           // locale independent

// ---- error positions
bool position_inside(const std::string &text, int line, int column);

std::deque<Type> &types();
const Type *find_type(const std::string &name);

// what reading a field found wrong with its comparison operators, if anything
const char *&odd_compare();
} // namespace sim
