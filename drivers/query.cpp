// CalQL queries, merging of partial aggregates, region profiles and report formats.
//   text <k> <text>                     stream given as text
//   load <k>...                         read the streams into a new database; logs the records
//   q d|c <ast> <calql>                 query directly (d) or through the .cali output of the query processor (c)
//   split <mode> <assign> <ast> <calql> records dealt to several aggregators (digits), merged: t in a binary tree, l in a chain,
//                                       s into a fresh one; w: own databases and the cross-process exchange
//   prof <kind> <metric> <region>       region profile, kind fx fi nx ni
//   live <op>...                       RegionProfile: start stop clear b:<attr>:<name> e:<attr> t:<ns> x:<type> i:<type>
//   finfo <json>                       what the streams say, for fmt
//   fmt <tag> <ast> <calql>             text a query prints (tag cali: the records and globals read from it)
#include "caliio.h"
#include "vclock.h"
#include "caliper/Caliper.h"
#include "caliper/RegionProfile.h"
#include "caliper/common/OutputStream.h"
#include "caliper/reader/Aggregator.h"
#include "caliper/reader/CaliReader.h"
#include "caliper/reader/CaliWriter.h"
#include "caliper/reader/CaliperMetadataDB.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/Preprocessor.h"
#include "caliper/reader/QueryProcessor.h"
#include "caliper/reader/RecordSelector.h"
#include "caliper/reader/FlatExclusiveRegionProfile.h"
#include "caliper/reader/FlatInclusiveRegionProfile.h"
#include "caliper/reader/NestedExclusiveRegionProfile.h"
#include "caliper/reader/NestedInclusiveRegionProfile.h"
#include "aggregate_over_mpi.cpp"
using namespace vf;

// numbers in units of 1/16 (attributes named big...: of 10^9/16) and, rounded, in units of 1/100
static void num(J& a, const std::string& name, double v)
{
    if (name.find("big") != std::string::npos)
        v /= 1e9;
    double x = v * 16, y = v * 100;
    a.el(std::isfinite(x) && std::fabs(x) < 2e9 && x == std::floor(x) ? (long long) x : 2000000001LL);
    a.el(std::isfinite(y) && std::fabs(y) < 2e9 ? llround(y) : 2000000001LL);
}

static std::string val(const std::string& name, cali_attr_type type, const Variant& v)
{
    J a('[');
    a.el(J::q(name));
    if (v.type() == CALI_TYPE_STRING)
        a.el(J::q("s" + std::string(static_cast<const char*>(v.data()), v.size())));
    else if (v.type() == CALI_TYPE_BOOL)
        a.el(v.to_bool() ? 16 : 0).el(v.to_bool() ? 100 : 0);
    else if (v.type() == CALI_TYPE_INT || v.type() == CALI_TYPE_UINT || v.type() == CALI_TYPE_DOUBLE)
        num(a, name, v.type() == CALI_TYPE_INT ? (double) v.to_int64() : v.to_double());
    else
        a.el(J::q("?" + vtext(v)));
    if (v.type() != type)
        a.el(J::q("type"));
    return a.done(']');
}

static std::string recjson(const CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
{
    std::vector<std::string> p, q, i;
    for (const Entry& e : rec) {
        if (e.empty())
            q.push_back("[\"empty entry\",0,0]");
        else if (e.is_immediate()) {
            Attribute a = db.get_attribute(e.attribute());
            if (!a.is_hidden())
                i.push_back(val(a.name(), a.type(), e.value()));
        } else {
            std::vector<std::string> ep, eq;
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
                Attribute a = db.get_attribute(n->attribute());
                if (!a)
                    eq.push_back("[\"node without attribute\",0,0]");
                else if (!a.is_hidden())
                    (a.is_nested() ? ep : eq).push_back(val(a.name(), a.type(), n->data()));
            }
            p.insert(p.end(), ep.rbegin(), ep.rend());
            q.insert(q.end(), eq.rbegin(), eq.rend());
        }
    }
    return J().raw("p", jarr(p)).raw("q", jarr(q)).raw("i", jarr(i)).done();
}

// [chains, values] of a record, entries [attribute, text]
static std::string layout(const CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
{
    auto en = [&](cali_id_t a, const Variant& v) { return J('[').el(J::q(db.get_attribute(a).name())).el(J::q(v.to_string())).done(']'); };
    std::vector<std::string> c, v;
    for (const Entry& e : rec) {
        if (e.is_immediate())
            v.push_back(en(e.attribute(), e.value()));
        else {
            std::vector<std::string> ch;
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                ch.insert(ch.begin(), en(n->attribute(), n->data()));
            c.push_back(jarr(ch));
        }
    }
    return "[" + jarr(c) + "," + jarr(v) + "]";
}

struct Db {
    CaliperMetadataDB               db;
    std::vector<std::vector<Entry>> recs;
    void read(const std::string& text)
    {
        std::istringstream is(text);
        CaliReader         rd;
        rd.read(is, db, [](CaliperMetadataAccessInterface&, const Node*) {},
                [this](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { recs.push_back(r); });
    }
};

static QuerySpec parse(const std::string& q)
{
    CalQLParser p(q.c_str());
    if (p.error())
        emit(J().str("e", "parse-error").str("m", p.error_msg()));
    return p.spec();
}

static std::string print_query(Db& d, const QuerySpec& spec)
{
    std::ostringstream os;
    {
        OutputStream ostr;
        ostr.set_stream(&os);
        QueryProcessor qp(spec, ostr);
        for (const auto& r : d.recs)
            qp.process_record(d.db, r);
        qp.flush(d.db);
    }
    return os.str();
}

static void emit_profile(const std::string& k, const std::string& m, const std::string& rt, const RegionProfile::region_profile_t& r, double scale)
{
    auto put = [scale](J& a, double v) { num(a, "", scale == 1 ? v : std::round(v * scale)); };
    J    m0('[');
    for (auto& p : std::get<0>(r)) {
        J e('[');
        e.el(J::q(p.first));
        put(e, p.second);
        m0.el(e.done(']'));
    }
    J tr('['), tt('[');
    put(tr, std::get<1>(r));
    put(tt, std::get<2>(r));
    emit(J().str("e", "prof").str("k", k).str("m", m).str("r", rt).raw("reg", m0.done(']')).raw("tr", tr.done(']')).raw("tt", tt.done(']')));
}

static void live(const Toks& t)
{
    g_clock = 1000000;
    RegionProfile rp;
    Caliper       c;
    for (size_t i = 1; i < t.size(); ++i) {
        std::vector<std::string> p;
        std::stringstream        ss(t[i]);
        for (std::string x; std::getline(ss, x, ':');)
            p.push_back(x);
        p.resize(3);
        auto attr = [&] { return c.create_attribute(p[1], CALI_TYPE_STRING, CALI_ATTR_NESTED); };
        if (p[0] == "start")
            rp.start();
        else if (p[0] == "stop")
            rp.stop();
        else if (p[0] == "clear")
            rp.clear();
        else if (p[0] == "b")
            c.begin(attr(), Variant(p[2].c_str()));
        else if (p[0] == "e")
            c.end(attr());
        else if (p[0] == "t")
            g_clock += std::stoll(p[1]);
        else {
            J       a('[');
            Channel chn = rp.channel();
            c.flush(chn.body(), SnapshotView(), [&a](CaliperMetadataAccessInterface& db, const std::vector<Entry>& r) { a.el(recjson(db, r)); });
            emit(J().str("e", "load").raw("info", "{}").raw("recs", a.done(']')));
            emit_profile(p[0] == "x" ? "fx" : "fi", "sum#time.duration.ns", p[1],
                         p[0] == "x" ? rp.exclusive_region_times(p[1]) : rp.inclusive_region_times(p[1]), 1e9);
        }
    }
}

static void run(const Scenario& sc)
{
    std::map<std::string, std::string> texts;
    std::unique_ptr<Db>                d;
    std::vector<std::string>           loaded;
    std::string                        info = "{}";
    for (const Toks& t : sc.lines) {
        const std::string& o = t[0];
        if (o == "info")
            info = t[1];
        else if (o == "text")
            texts[t[1]] = t[2];
        else if (o == "load") {
            d.reset(new Db);
            loaded.assign(t.begin() + 1, t.end());
            for (const auto& k : loaded)
                d->read(texts[k]);
            J a('[');
            for (const auto& r : d->recs)
                a.el(recjson(d->db, r));
            emit(J().str("e", "load").raw("info", info).raw("recs", a.done(']')));
        } else if (o == "q") {
            QuerySpec spec = parse(t[3]);
            J         a('[');
            if (t[1] == "d") {
                Preprocessor   pre(spec);
                RecordSelector sel(spec);
                Aggregator     agg(spec);
                bool           aggr = spec.aggregate.selection != QuerySpec::AggregationSelection::None;
                auto           push = [&a](CaliperMetadataAccessInterface& db, const std::vector<Entry>& r) { a.el(recjson(db, r)); };
                for (const auto& r : d->recs) {
                    EntryList x = pre.process(d->db, r);
                    if (!sel.pass(d->db, x))
                        continue;
                    if (aggr)
                        agg(d->db, x);
                    else
                        push(d->db, x);
                }
                if (aggr)
                    agg.flush(d->db, push);
            } else {
                Db r;
                r.read(print_query(*d, spec));
                for (const auto& x : r.recs)
                    a.el(recjson(r.db, x));
            }
            emit(J().str("e", "result").str("m", t[1]).raw("q", t[2]).raw("rows", a.done(']')));
        } else if (o == "split") {
            QuerySpec spec = parse(t[4]);
            int       n    = 0;
            for (char c : t[2])
                n = std::max(n, c - '0' + 1);
            J    a('[');
            auto push = [&a](CaliperMetadataAccessInterface& db, const std::vector<Entry>& r) { a.el(recjson(db, r)); };
            Preprocessor   pre(spec);
            RecordSelector sel(spec);
            std::vector<std::unique_ptr<Aggregator>> ag;
            for (int i = 0; i <= n; ++i)
                ag.emplace_back(new Aggregator(spec));
            if (t[1] == "w") {
                // each process has a database with only what its own records need
                std::vector<std::unique_ptr<Db>> dbs;
                // (queries create an attribute "count" where there is none)
                Attribute count = d->db.get_attribute("count");
                for (int i = 0; i < n; ++i) {
                    dbs.emplace_back(new Db);
                    if (count)
                        dbs[i]->db.merge_snapshot(d->db, {Entry(count, Variant(1))});
                }
                for (int i = 0; i < n; ++i) {
                    Preprocessor   pre(spec);
                    RecordSelector sel(spec);
                    for (size_t k = 0; k < d->recs.size(); ++k)
                        if (t[2][k % t[2].size()] - '0' == i) {
                            EntryList x = pre.process(dbs[i]->db, dbs[i]->db.merge_snapshot(d->db, d->recs[k]));
                            if (sel.pass(dbs[i]->db, x))
                                ag[i]->add(dbs[i]->db, x);
                        }
                }
                FakeMpi& m = FakeMpi::get();
                m.size     = n;
                m.q.clear();
                for (m.rank = n - 1; m.rank >= 0; --m.rank)
                    aggregate_over_mpi(dbs[m.rank]->db, *ag[m.rank], 0);
                // the other processes end; what they sent must not depend on them
                for (int i = 1; i < n; ++i) {
                    ag[i].reset();
                    dbs[i].reset();
                }
                size_t left = 0;
                for (auto& c : m.q)
                    left += c.second.size();
                if (left)
                    emit(J().str("e", "unreceived"));
                ag[0]->flush(dbs[0]->db, push);
            } else {
                for (size_t k = 0; k < d->recs.size(); ++k) {
                    EntryList x = pre.process(d->db, d->recs[k]);
                    if (sel.pass(d->db, x))
                        ag[t[2][k % t[2].size()] - '0']->add(d->db, x);
                }
                int last = 0;
                if (t[1] == "t")
                    for (int s = 1; s < n; s *= 2)
                        for (int i = 0; i + s < n; i += 2 * s)
                            ag[i + s]->flush(d->db, *ag[i]);
                else if (t[1] == "l") {
                    for (int i = n - 1; i > 0; --i)
                        ag[i]->flush(d->db, *ag[i - 1]);
                } else {
                    for (int i = 0; i < n; ++i)
                        ag[i]->flush(d->db, *ag[n]);
                    last = n;
                }
                ag[last]->flush(d->db, push);
            }
            emit(J().str("e", "result").str("m", "split-" + t[1]).raw("q", t[3]).raw("rows", a.done(']')));
        } else if (o == "prof") {
            std::tuple<std::map<std::string, double>, double, double> r;
            auto go = [&](auto p) {
                for (const auto& x : d->recs)
                    p(d->db, x);
                r = p.result();
            };
            if (t[1] == "fx")
                go(FlatExclusiveRegionProfile(d->db, t[2].c_str(), t[3].c_str()));
            else if (t[1] == "fi")
                go(FlatInclusiveRegionProfile(d->db, t[2].c_str(), t[3].c_str()));
            else if (t[1] == "nx")
                go(NestedExclusiveRegionProfile(d->db, t[2].c_str(), t[3].c_str()));
            else
                go(NestedInclusiveRegionProfile(d->db, t[2].c_str(), t[3].c_str()));
            emit_profile(t[1], t[2], t[3], r, 1);
        } else if (o == "live") {
            live(t);
        } else if (o == "finfo") {
            emit(J().str("e", "info").raw("x", t[1]));
        } else if (o == "fmt") {
            std::string text = print_query(*d, parse(t[3]));
            if (t[1] == "cali") {
                Db r;
                r.read(text);
                J rows('['), gl('[');
                for (const auto& x : r.recs)
                    rows.el(layout(r.db, x));
                for (const Entry& e : r.db.get_globals()) {
                    std::string s = e.value().to_string();
                    if (e.is_reference())
                        for (const Node* n = e.node()->parent(); n && n->id() != CALI_INV_ID; n = n->parent())
                            s = n->data().to_string() + "/" + s;
                    gl.el(J('[').el(J::q(r.db.get_attribute(e.attribute()).name())).el(J::q(s)).done(']'));
                }
                emit(J().str("e", "fmt").str("f", t[1]).raw("q", t[2]).raw("x", rows.done(']')).raw("globs", gl.done(']')));
            } else
                emit(J().str("e", "fmt").str("f", t[1]).raw("q", t[2]).str("t", text));
        }
    }
}

int main(int argc, char** argv)
{
    return vf::run_all(argc, argv, run);
}
