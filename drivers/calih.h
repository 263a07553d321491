// Helpers on top of the Caliper API: attribute and value tables, encoding of entries as integers.
#pragma once
#include "vf.h"
#include "caliper/Caliper.h"
#include "caliper/SnapshotRecord.h"
#include "../src/common/RuntimeConfig.h"
#include "caliper/cali.h"
#include "caliper/common/Attribute.h"
#include "caliper/common/Entry.h"
#include "caliper/common/Node.h"
#include "caliper/common/Variant.h"
#include <cmath>
#include <limits>
#include <set>

namespace cali
{
extern Attribute region_attr;
extern Attribute phase_attr;
extern Attribute comm_region_attr;
extern Attribute loop_attr;
} // namespace cali

namespace vf
{
using namespace cali;

struct ValueTable {
    // storage with stable addresses
    std::vector<std::string> strs;
    std::map<int, std::vector<Variant>> vals;

    ValueTable()
    {
        strs = { "foo",      "foobar",       "fo",      "bar,baz", "a=b",       "c\\d",  "", "line1\nline2", "\"quoted\"",
                 "x y z",    "\xc3\xa4\xc3\xb6", std::string(300, 'L'), std::string(300, 'L') + "x", "foo ", "1", "true",
                 "v16", "v17", "v18", "v19", "v20", "v21", "v22", "v23", "v24", "v25", "v26", "v27", "v28", "v29" };
        for (auto& s : strs)
            vals[CALI_TYPE_STRING].push_back(Variant(CALI_TYPE_STRING, s.data(), s.size()));
        for (auto& s : strs)
            vals[CALI_TYPE_USR].push_back(Variant(CALI_TYPE_USR, s.data(), s.size()));
        int iv[] = { 1, 0, -1, 42, 2147483647, -2147483647 - 1, 127, 128, 255, 256, 16383, 16384 };
        for (int i : iv)
            vals[CALI_TYPE_INT].push_back(Variant(i));
        for (int i = 100; i < 118; ++i)
            vals[CALI_TYPE_INT].push_back(Variant(i));
        uint64_t uv[] = { 1, 0, 42, 127, 128, 0xFFFFFFFFull, 0x100000000ull, 0xFFFFFFFFFFFFFFFFull };
        for (uint64_t u : uv)
            vals[CALI_TYPE_UINT].push_back(cali_make_variant_from_uint(u));
        for (uint64_t i = 100; i < 122; ++i)
            vals[CALI_TYPE_UINT].push_back(cali_make_variant_from_uint(i));
        double dv[] = { 1.0, 0.0, -1.5, 3.141592653589793, 1e300, -1e-300, 1e10, 0.1 };
        for (double d : dv)
            vals[CALI_TYPE_DOUBLE].push_back(Variant(d));
        for (int i = 0; i < 22; ++i)
            vals[CALI_TYPE_DOUBLE].push_back(Variant(1000.0 + i / 8.0));
        vals[CALI_TYPE_BOOL].push_back(Variant(true));
        vals[CALI_TYPE_BOOL].push_back(Variant(false));
        uint64_t av[] = { 0x1000, 0, 0x7fffdeadbeef, 0xFFFFFFFFFFFFFFFFull };
        for (uint64_t u : av)
            vals[CALI_TYPE_ADDR].push_back(Variant(CALI_TYPE_ADDR, &u, sizeof(u)));
    }
    Variant get(cali_attr_type t, int v) const { return vals.at(t).at(v - 1); }
    int     count(cali_attr_type t) const { return vals.count(t) ? (int) vals.at(t).size() : 0; }
    // 0: empty, -1: unknown, else 1..n
    int find(cali_attr_type t, const Variant& v) const
    {
        if (v.empty())
            return 0;
        auto it = vals.find(t);
        if (it == vals.end() || v.type() != t)
            return -1;
        for (size_t i = 0; i < it->second.size(); ++i) {
            const Variant& w = it->second[i];
            if (t == CALI_TYPE_STRING || t == CALI_TYPE_USR) {
                if (v.size() == w.size() && memcmp(v.data(), w.data(), v.size()) == 0)
                    return (int) i + 1;
            } else if (t == CALI_TYPE_DOUBLE) {
                if (v.to_double() == w.to_double())
                    return (int) i + 1;
            } else if (v == w)
                return (int) i + 1;
        }
        return -1;
    }
};

inline ValueTable& values()
{
    static ValueTable t;
    return t;
}

inline int parse_props(const std::string& s)
{
    static const std::map<std::string, int> m = {
        { "nested", CALI_ATTR_NESTED },         { "asvalue", CALI_ATTR_ASVALUE },
        { "process", CALI_ATTR_SCOPE_PROCESS }, { "thread", CALI_ATTR_SCOPE_THREAD },
        { "hidden", CALI_ATTR_HIDDEN },         { "unaligned", CALI_ATTR_UNALIGNED },
        { "skip", CALI_ATTR_SKIP_EVENTS },      { "global", CALI_ATTR_GLOBAL },
        { "agg", CALI_ATTR_AGGREGATABLE },      { "nomerge", CALI_ATTR_NOMERGE },
        { "level1", CALI_ATTR_LEVEL_1 },        { "level2", CALI_ATTR_LEVEL_2 },
        { "level3", CALI_ATTR_LEVEL_3 },         { "level4", CALI_ATTR_LEVEL_4 },
        { "level5", CALI_ATTR_LEVEL_5 },        { "level6", CALI_ATTR_LEVEL_6 },        { "level7", CALI_ATTR_LEVEL_7 },
              { "default", 0 }
    };
    int                r = 0;
    std::istringstream is(s);
    std::string        w;
    while (std::getline(is, w, ','))
        if (!w.empty())
            r |= m.at(w);
    return r;
}

struct AttrTable {
    std::map<int, Attribute> a;
    std::map<cali_id_t, int> idx;
    std::map<int, long>      tick;  // indexes whose values are logged in units of this
    std::set<int>            raw;   // indexes whose values are logged as integers (doubles: eighths)
    std::map<std::string, int> names; // attributes (created by the library) that are logged as integers or values
    std::set<std::string>    ignore { "cali.caliper.version", "cali.channel", "starttime.sec", "starttime.nsec", "aggregate.slot" };
    void                     add(int i, const Attribute& at)
    {
        a[i]         = at;
        idx[at.id()] = i;
    }
    // 0: to be ignored, 9999: unexpected
    int find(Caliper& c, cali_id_t id) const
    {
        auto it = idx.find(id);
        if (it != idx.end())
            return it->second;
        Attribute at = c.get_attribute(id);
        if (at && ignore.count(at.name()))
            return 0;
        if (at && names.count(at.name()))
            return names.at(at.name());
        return 9999;
    }
    static long rawval(const Variant& v)
    {
        double d = v.type() == CALI_TYPE_DOUBLE ? v.to_double() * 8 : v.type() == CALI_TYPE_UINT ? (double) v.to_uint()
                                                                                                  : (double) v.to_int64();
        if (v.empty() || std::fabs(d) > 2147483646.0)
            return -2147483647;
        return (long) d;
    }
    static Variant makeraw(cali_attr_type t, long v)
    {
        if (t == CALI_TYPE_DOUBLE)
            return Variant(v / 8.0);
        if (t == CALI_TYPE_UINT)
            return cali_make_variant_from_uint(v);
        return Variant((int) v);
    }
    Variant make(int ai, long v) const
    {
        return raw.count(ai) ? makeraw(a.at(ai).type(), v) : values().get(a.at(ai).type(), v);
    }
    long enc(Caliper& c, int ai, cali_id_t id, const Variant& v) const
    {
        if (ai == 9999)
            return 0;
        if (tick.count(ai)) {
            double d = v.type() == CALI_TYPE_DOUBLE ? v.to_double() : (double) v.to_uint();
            long   k = tick.at(ai);
            if (d < 0 || d / k > 2147483646.0 || (v.type() == CALI_TYPE_UINT && v.to_uint() % k != 0))
                return -7;
            return (long) (d / k);
        }
        if (raw.count(ai))
            return rawval(v);
        return values().find(c.get_attribute(id).type(), v);
    }
};

inline std::string enc_entry(Caliper& c, const AttrTable& at, const Entry& e)
{
    if (e.is_reference()) {
        std::vector<std::pair<int, long>> p;
        for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
            int ai = at.find(c, n->attribute());
            if (ai == 0)
                continue;
            long vi = at.enc(c, ai, n->attribute(), n->data());
            p.push_back({ ai, vi });
        }
        if (p.empty())
            return "";
        J j('[');
        j.el(1);
        for (auto it = p.rbegin(); it != p.rend(); ++it)
            j.el(it->first).el(it->second);
        return j.done(']');
    } else if (e.is_immediate()) {
        int ai = at.find(c, e.attribute());
        if (ai == 0)
            return "";
        long vi = at.enc(c, ai, e.attribute(), e.value());
        J   j('[');
        j.el(2).el(ai).el(vi);
        return j.done(']');
    }
    return "[0]";
}

inline std::string enc_list(Caliper& c, const AttrTable& at, const std::vector<Entry>& v)
{
    J j('[');
    for (const Entry& e : v) {
        std::string s = enc_entry(c, at, e);
        if (!s.empty())
            j.el(s);
    }
    return j.done(']');
}

inline std::string enc_view(Caliper& c, const AttrTable& at, SnapshotView v)
{
    J j('[');
    for (const Entry& e : v) {
        std::string s = enc_entry(c, at, e);
        if (!s.empty())
            j.el(s);
    }
    return j.done(']');
}

inline cali_attr_type type_of(const std::string& s)
{
    return cali_string2type(s.c_str());
}

} // namespace vf
