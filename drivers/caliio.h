// Canonical contents of context tree nodes, entries and records, independent of node ids.
#pragma once
#include "vf.h"
#include "caliper/common/CaliperMetadataAccessInterface.h"
#include "caliper/common/Attribute.h"
#include "caliper/common/Entry.h"
#include "caliper/common/Node.h"
#include "caliper/common/Variant.h"
#include <cmath>

namespace vf
{
using namespace cali;

inline std::string pct(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (isalnum(c) || c == '_' || c == '.' || c == '#' || c == '-' || c == ':')
            r.push_back(c);
        else {
            char b[4];
            snprintf(b, 4, "%%%02X", c);
            r += b;
        }
    }
    return r;
}

inline std::string hex16(uint64_t u)
{
    char b[20];
    snprintf(b, 20, "%016llx", (unsigned long long) u);
    return b;
}

inline std::string vtext(const Variant& v)
{
    switch (v.type()) {
    case CALI_TYPE_INV:
        return "-";
    case CALI_TYPE_USR:
        return "U";
    case CALI_TYPE_STRING:
        return "s" + pct(std::string(static_cast<const char*>(v.data()), v.size()));
    case CALI_TYPE_INT:
        return "i" + std::to_string((long long) v.c_variant().value.v_int);
    case CALI_TYPE_UINT:
        return "u" + std::to_string((unsigned long long) v.c_variant().value.v_uint);
    case CALI_TYPE_ADDR:
        return "a" + hex16(v.c_variant().value.v_uint);
    case CALI_TYPE_DOUBLE:
        return std::isnan(v.to_double()) ? std::string("dnan") : "d" + hex16(v.c_variant().value.v_uint);
    case CALI_TYPE_BOOL:
        return v.c_variant().value.v_bool ? "b1" : "b0";
    case CALI_TYPE_TYPE:
        return std::string("t") + cali_type2string(v.to_attr_type());
    case CALI_TYPE_PTR:
        return "p";
    }
    return "?";
}

inline std::string content(const CaliperMetadataAccessInterface& db, const Node* node)
{
    if (!node || node->id() == CALI_INV_ID)
        return "";
    if (node->id() < 12)
        return "#" + std::to_string(node->id());
    const Node* an = db.node(node->attribute());
    std::string a  = an ? content(db, an) : std::string("?");
    return content(db, node->parent()) + "/(" + a + ")=" +
           // values of hidden entries are not transferred
           (an && Attribute::is_attribute(an) && db.get_attribute(an->id()).is_hidden() ? "U" : vtext(node->data()));
}

inline std::string etext(const CaliperMetadataAccessInterface& db, const Entry& e)
{
    if (e.empty())
        return "E";
    if (e.is_immediate())
        return "I(" + content(db, e.node()) + ")=" + vtext(e.value());
    return "R" + content(db, e.node());
}

inline std::string rectext(const CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
{
    J a('[');
    for (const Entry& e : rec)
        a.el(J::q(etext(db, e)));
    return a.done(']');
}

// "T:text" with T one of s i u d a b t; strings are raw bytes, doubles as text or 16 hex digits after "dx:"
struct Values {
    std::vector<std::unique_ptr<std::string>> keep;
    Variant make(const std::string& s)
    {
        std::string x = s.substr(2);
        switch (s[0]) {
        case 's':
            keep.emplace_back(new std::string(x));
            return Variant(CALI_TYPE_STRING, keep.back()->data(), keep.back()->size());
        case 'c':
            keep.emplace_back(new std::string(x));
            return Variant(keep.back()->c_str());
        case 'i':
            return Variant(cali_make_variant_from_int64(strtoll(x.c_str(), nullptr, 10)));
        case 'u':
            return Variant(cali_make_variant_from_uint(strtoull(x.c_str(), nullptr, 10)));
        case 'd': {
            uint64_t u = strtoull(x.c_str(), nullptr, 16);
            double   d;
            memcpy(&d, &u, 8);
            return Variant(d);
        }
        case 'a': {
            uint64_t u = strtoull(x.c_str(), nullptr, 16);
            return Variant(CALI_TYPE_ADDR, &u, sizeof(u));
        }
        case 'b':
            return Variant(x == "1");
        case 't':
            return Variant(cali_string2type(x.c_str()));
        }
        return Variant();
    }
};

} // namespace vf
