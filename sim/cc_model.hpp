// Models (.proto text) for the compiler simulation: random valid models, their
// renderings with any layout, an independent account of what every prefix is,
// and damaged or hostile variants.
#pragma once
#include <set>
#include <string>
#include <vector>
#include "core.hpp"

namespace sim {

struct FieldM
{
    std::string type, name;
    uint32_t num = 1;
    bool rep = false, opt = false;
    bool ref = false; // refers to a message (same package)
    std::vector<std::pair<std::string, std::string>> opts; // name, value token
};
struct MsgM
{
    std::string package, name;
    std::vector<FieldM> fields;
    std::vector<std::pair<std::string, std::string>> opts;
};
// a top-level statement: 's' syntax, 'p' package, 'o' option, 'm' message
struct StmtM
{
    char kind;
    std::string a, b;
    MsgM msg;
};
struct ModelM { std::vector<StmtM> stmts; };

enum Cut { CUT_BOUNDARY, CUT_INSIDE, CUT_BLOCK_COMMENT, CUT_SLASH };
struct Text
{
    std::string bytes;
    std::vector<unsigned char> cut;   // by prefix length 0..size: enum Cut
    std::vector<uint32_t> done;       // by prefix length: complete top-level statements
};

ModelM random_model(uint32_t maxmsgs, uint32_t maxfields);
std::vector<std::vector<std::string>> tokens(const ModelM &m); // per top-level statement
// style 0: one canonical layout; otherwise random whitespace and comments between tokens
Text render(const ModelM &m, int style);
bool refs_resolved(const ModelM &m, uint32_t stmts); // of the first `stmts` statements
std::set<std::string> names_of(const ModelM &m);
std::string damage(const std::string &text);         // corrupt a model text
std::string hostile();                               // not derived from a model
bool has_word(const std::string &text, const std::string &word);
} // namespace sim
