// Helpers shared by the runtime scenarios.
#pragma once
#include <cstdarg>
#include <memory>
#include <string>
#include "core.hpp"
#include "streams.hpp"
#include "value.hpp"

namespace sim {
typedef std::unique_ptr<Obj> ObjP;

enum Res { R_OK, R_FAIL, R_THROW };
extern const char *RES_NAME[];
struct Result
{
    Res r = R_OK;
    std::string what; // exception text
    bool bad_alloc = false;
};
Result deser(Obj &o, Src &s, Par &p);
Result ser(Obj &o, Snk &k, Par &p);
template <class F> Result guarded(F f)
{
    Result x;
    try { x.r = f() ? R_OK : R_FAIL; }
    catch (const std::bad_alloc &e) { x.r = R_THROW; x.bad_alloc = true; x.what = e.what(); }
    catch (const std::exception &e) { x.r = R_THROW; x.what = e.what(); }
    return x;
}
ObjP make(const Type &t);
ObjP make(const Type &t, const Val &v);
Val value_of(const Obj &o);
const Type &pick_type(bool arrays = true);
const Type &pick_type_of(const std::string &model);
Par random_par();
std::string par_text(const Par &p);
// deliver `doc` in some form; fault-free
void random_src(Src &s, const std::string &doc, int only = -1);
void random_snk(Snk &k, size_t hint, int only = -1);
// fault-free serialization to std::string; failure is reported with `kind`
std::string plain_bytes(Obj &o, const Par &p, const char *kind);
// the object must hold exactly this value (also through its own comparison)
void expect_value(const char *kind, const Obj &o, const Val &want, const char *where);
// independent check of a document
void check_document(const char *kind, const Type &t, const std::string &doc, const Val &want, const Par &p);
#define CHECK(cond, kind, ...) do { if (!(cond)) ::sim::fail(kind, __VA_ARGS__); } while (0)
} // namespace sim
