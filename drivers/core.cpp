// Driver for the core runtime: annotations, context, channels, snapshots and the in-process services
// (specs CaliperCore, CoreTrace and the service specifications built on them).
#include "calih.h"
#include "vclock.h"
#include "caliper/Annotation.h"
#include <atomic>
#include <unordered_map>
using namespace vf;


namespace
{
AttrTable                              A;
std::map<int, std::string>             aname;
std::map<int, std::unique_ptr<Worker>> W;
std::map<int, Channel>                 CH;
bool log_ctx = true, log_path = true, log_cb = true, log_snap = false, intern = false;

thread_local std::vector<std::string> cbs;   // notifications of the current call
thread_local std::vector<std::string> snaps; // snapshots processed by the current call

// interned record contents (OPT intern): equal contents <=> equal numbers
std::mutex                           int_mtx;
std::unordered_map<std::string, int> int_tab;

std::string canonical(Caliper& c, const std::vector<Entry>& v)
{
    std::vector<std::string> es;
    for (const Entry& e : v) {
        std::string s;
        if (e.is_reference()) {
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
                Attribute at = c.get_attribute(n->attribute());
                if (A.ignore.count(at.name()))
                    continue;
                s += at.name() + "\x01" + std::to_string(n->data().type()) + "\x02";
                s += n->data().type() == CALI_TYPE_STRING || n->data().type() == CALI_TYPE_USR
                         ? std::string((const char*) n->data().data(), n->data().size())
                         : n->data().to_string();
                s += "\x03";
            }
            if (s.empty())
                continue;
            s = "R" + s;
        } else if (e.is_immediate()) {
            Variant v = e.value();
            char    b[64];
            if (v.type() == CALI_TYPE_DOUBLE)
                snprintf(b, sizeof(b), "%a", v.to_double());
            else if (v.type() == CALI_TYPE_UINT)
                snprintf(b, sizeof(b), "%llu", (unsigned long long) v.to_uint());
            else if (v.type() == CALI_TYPE_INT)
                snprintf(b, sizeof(b), "%lld", (long long) v.to_int64());
            else
                snprintf(b, sizeof(b), "%s", v.to_string().substr(0, 60).c_str());
            s = "I" + std::to_string(e.attribute()) + "\x01" + std::to_string(v.type()) + "\x02" + b;
        } else
            s = "EMPTY";
        es.push_back(s);
    }
    std::sort(es.begin(), es.end());
    std::string r;
    for (auto& s : es)
        r += s + "\x04";
    return r;
}

std::string enc_rec(Caliper& c, const std::vector<Entry>& v)
{
    if (!intern)
        return enc_list(c, A, v);
    std::string                 s = canonical(c, v);
    std::lock_guard<std::mutex> g(int_mtx);
    auto                        it = int_tab.emplace(s, (int) int_tab.size() + 1).first;
    return std::to_string(it->second);
}

// OPT mark: contents are numbered channel * 10^8 + thread * 10^6 + k for the k-th content the thread recorded on the channel
bool                               mark = false;
thread_local int                   cur_t = 1;
std::map<std::pair<int, int>, int> mark_cnt;
int mark_new(Caliper& c, int ch, const std::vector<Entry>& v)
{
    std::string                 s = canonical(c, v);
    std::lock_guard<std::mutex> g(int_mtx);
    auto                        it = int_tab.find(s);
    if (it == int_tab.end())
        it = int_tab.emplace(s, ch * 100000000 + cur_t * 1000000 + ++mark_cnt[{ ch, cur_t }]).first;
    return it->second;
}
int mark_find(Caliper& c, const std::vector<Entry>& v)
{
    std::string                 s = canonical(c, v);
    std::lock_guard<std::mutex> g(int_mtx);
    auto                        it = int_tab.find(s);
    return it == int_tab.end() ? 0 : it->second;
}
struct Out {
    size_t           pos;
    std::vector<int> ids;
};
thread_local std::vector<Out> outs; // output written during the current operation
std::string marks_json(const std::vector<int>& v)
{
    //   runs of consecutive numbers: [first, length]
    J j('[');
    for (size_t i = 0; i < v.size();) {
        size_t k = i + 1;
        while (k < v.size() && v[k] == v[k - 1] + 1)
            ++k;
        j.el("[" + std::to_string(v[i]) + "," + std::to_string(k - i) + "]");
        i = k;
    }
    return j.done(']');
}
std::string outs_json(int base)
{
    J j('[');
    for (const Out& o : outs)
        j.el(J().i("pos", (long long) o.pos).raw("runs", marks_json(o.ids)).done());
    return j.done(']');
}

void on_thread(int t, std::function<void()> f)
{
    if (t <= 1) { // thread 1 is the initial thread
        f();
        return;
    }
    auto& w = W[t];
    if (!w)
        w.reset(new Worker);
    w->run(f);
}

void cb(int ch, int kind, ChannelBody*, Caliper* c, const Attribute& a, const Variant& v)
{
    int ai = A.find(*c, a.id());
    if (ai == 0)
        return;
    long vi = A.enc(*c, ai, a.id(), v);
    // the value of the attribute at this moment tells whether the change is visible yet
    Entry now = c->get(a);
    long  gi  = ai == 9999 || now.empty() ? 0 : A.enc(*c, ai, a.id(), now.value());
    J     j('[');
    j.el(ch).el(kind).el(ai).el(vi).el(gi);
    cbs.push_back(j.done(']'));
}

// the following are executed on the thread in question
std::string context()
{
    Caliper                      c;
    FixedSizeSnapshotRecord<120> rec;
    c.pull_context(rec.builder());
    return enc_view(c, A, rec.view());
}

std::string path()
{
    Caliper     c;
    Entry       e = c.get_path_node();
    std::string r = e.empty() ? "[]" : enc_entry(c, A, e);
    return r.empty() ? "[]" : r;
}

void create_attr(int i, const std::string& name, const std::string& type, const std::string& props, int near, int dist)
{
    Caliper c;
    if (name[0] == '@') {
        Attribute a = name == "@region"  ? region_attr
                      : name == "@phase" ? phase_attr
                      : name == "@comm"  ? comm_region_attr
                                         : loop_attr;
        A.add(i, a);
        aname[i] = a.name();
        return;
    }
    cali_attr_type t  = type_of(type);
    int            pr = parse_props(props);
    if (near != 0) {
        //   Create the attribute so that its id is id(near) + dist (or just dist) modulo
        // 1021, the size of the context store, using up ids with filler nodes.
        uint64_t  target = near > 0 ? (A.a.at(near).id() + 1021 + dist) % 1021 : dist;
        Attribute filler = c.create_attribute("vf.filler", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
        // make sure type and property nodes exist
        c.create_attribute("vf.tmpl." + type + "." + props, t, pr);
        static int   fcount = 0;
        static Node* n      = nullptr;
        for (int k = 0; k < 20000; ++k) {
            n = c.make_tree_entry(filler, Variant(++fcount), n);
            if ((n->id() + 1) % 1021 == target) {
                std::string nm = name + "." + std::to_string(k);
                Attribute   a  = c.create_attribute(nm, t, pr);
                if (a.id() % 1021 == target) {
                    A.add(i, a);
                    aname[i] = nm;
                    A.ignore.insert("vf.filler");
                    return;
                }
            }
        }
        _exit(95);
    }
    Attribute a = c.create_attribute(name, t, pr);
    A.add(i, a);
    aname[i] = name;
}

void hook_events(int ch, Channel& chn)
{
    auto& ev = chn.events();
    ev.pre_begin_evt.connect([ch](Caliper* c, ChannelBody* b, const Attribute& a, const Variant& v) { cb(ch, 1, b, c, a, v); });
    ev.post_begin_evt.connect([ch](Caliper* c, ChannelBody* b, const Attribute& a, const Variant& v) { cb(ch, 2, b, c, a, v); });
    ev.pre_set_evt.connect([ch](Caliper* c, ChannelBody* b, const Attribute& a, const Variant& v) { cb(ch, 3, b, c, a, v); });
    ev.pre_end_evt.connect([ch](Caliper* c, ChannelBody* b, const Attribute& a, const Variant& v) { cb(ch, 4, b, c, a, v); });
}

void hook_snapshots(int ch, Channel& chn)
{
    chn.events().write_output_evt.connect([ch](Caliper* c, ChannelBody* chB, SnapshotView info) {
        Out o { snaps.size(), {} };
        c->flush(chB, info, [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
            o.ids.push_back(mark_find(*c, rec));
        });
        outs.push_back(o);
    });
    chn.events().process_snapshot.connect([ch](Caliper* c, SnapshotView, SnapshotView rec) {
        if (mark) {
            std::vector<Entry> r(rec.begin(), rec.end());
            snaps.push_back("[" + std::to_string(mark_new(*c, ch, r)) + "," + std::to_string(r.size()) + "]");
        } else
        snaps.push_back("[" + std::to_string(ch) + "," + enc_rec(*c, std::vector<Entry>(rec.begin(), rec.end())) + "]");
    });
}

// trigger information in a scenario line: attribute/value pairs from position p on
std::vector<Entry> info_from(const Toks& l, size_t p)
{
    std::vector<Entry> r;
    Caliper            c;
    for (; p + 1 < l.size(); p += 2) {
        int       a  = to_i(l[p]);
        Attribute at = A.a.at(a);
        Variant   v  = A.make(a, to_i(l[p + 1]));
        if (at.store_as_value())
            r.push_back(Entry(at, v));
        else
            r.push_back(Entry(c.make_tree_entry(at, v)));
    }
    return r;
}

//   Executes one operation on the calling thread (which is thread t of the scenario); returns the event.
std::string exec(const Toks& l)
{
    const std::string& op = l[0];
    cbs.clear();
    snaps.clear();
    outs.clear();
    J   j;
    int t = l.size() > 1 ? to_i(l[1]) : 0;
    cur_t = t;
    j.str("e", op == "end" ? "end1" : op);
    if (op == "begin" || op == "set" || op == "endchk") {
        int       a = to_i(l[2]), v = to_i(l[3]);
        char      via = l.size() > 4 ? l[4][0] : 'p';
        Attribute at  = A.a.at(a);
        Variant   val = A.make(a, v);
        std::string sv = val.to_string();
        if (at.type() == CALI_TYPE_STRING)
            sv = std::string((const char*) val.data(), val.size());
        const std::string& nm = aname.at(a);
        if (op == "begin") {
            if (via == 'c' && at.type() == CALI_TYPE_INT)
                cali_begin_int(at.id(), val.to_int());
            else if (via == 'c' && at.type() == CALI_TYPE_DOUBLE)
                cali_begin_double(at.id(), val.to_double());
            else if (via == 'c' && at.type() == CALI_TYPE_STRING)
                cali_begin_string(at.id(), (const char*) val.data());
            else if (via == 'c' && at.type() == CALI_TYPE_BOOL && v == 1)
                cali_begin(at.id());
            else if (via == 'n' && at.type() == CALI_TYPE_INT)
                cali_begin_int_byname(nm.c_str(), val.to_int());
            else if (via == 'n' && at.type() == CALI_TYPE_DOUBLE)
                cali_begin_double_byname(nm.c_str(), val.to_double());
            else if (via == 'n' && at.type() == CALI_TYPE_STRING)
                cali_begin_string_byname(nm.c_str(), (const char*) val.data());
            else if (via == 'n' && at.type() == CALI_TYPE_BOOL && v == 1)
                cali_begin_byname(nm.c_str());
            else if (via == 'r' && at == region_attr)
                cali_begin_region(sv.c_str());
            else if (via == 'r' && at == phase_attr)
                cali_begin_phase(sv.c_str());
            else if (via == 'r' && at == comm_region_attr)
                cali_begin_comm_region(sv.c_str());
            else if (via == 'a')
                Annotation(nm.c_str()).begin(val);
            else {
                Caliper c;
                c.begin(at, val);
            }
        } else if (op == "set") {
            if (via == 'c' && at.type() == CALI_TYPE_INT)
                cali_set_int(at.id(), val.to_int());
            else if (via == 'c' && at.type() == CALI_TYPE_DOUBLE)
                cali_set_double(at.id(), val.to_double());
            else if (via == 'c' && at.type() == CALI_TYPE_STRING)
                cali_set_string(at.id(), (const char*) val.data());
            else if (via == 'n' && at.type() == CALI_TYPE_INT)
                cali_set_int_byname(nm.c_str(), val.to_int());
            else if (via == 'n' && at.type() == CALI_TYPE_DOUBLE)
                cali_set_double_byname(nm.c_str(), val.to_double());
            else if (via == 'n' && at.type() == CALI_TYPE_STRING)
                cali_set_string_byname(nm.c_str(), (const char*) val.data());
            else if (via == 'a')
                Annotation(nm.c_str()).set(val);
            else {
                Caliper c;
                c.set(at, val);
            }
        } else {
            if (via == 'r' && at == region_attr)
                cali_end_region(sv.c_str());
            else if (via == 'r' && at == phase_attr)
                cali_end_phase(sv.c_str());
            else if (via == 'r' && at == comm_region_attr)
                cali_end_comm_region(sv.c_str());
            else {
                Caliper c;
                c.end_with_value_check(at, val);
            }
        }
        j.i("t", t).i("a", a).i("v", v);
    } else if (op == "end") {
        int       a   = to_i(l[2]);
        char      via = l.size() > 3 ? l[3][0] : 'p';
        Attribute at  = A.a.at(a);
        if (via == 'c')
            cali_end(at.id());
        else if (via == 'n')
            cali_end_byname(aname.at(a).c_str());
        else if (via == 'a')
            Annotation(aname.at(a).c_str(), Annotation::MetadataListType()).end();
        else {
            Caliper c;
            c.end(at);
        }
        j.i("t", t).i("a", a);
    } else if (op == "get") { // get t a via
        int       a   = to_i(l[2]);
        Attribute at  = A.a.at(a);
        char      via = l.size() > 3 ? l[3][0] : 'p';
        Caliper   c;
        Variant   v = via == 'c' ? Variant(cali_get(at.id())) : c.get(at).value();
        return j.i("t", t).i("a", a).i("r", v.empty() ? 0 : A.enc(c, a, at.id(), v)).done();
    } else if (op == "ctx") {
        return j.i("t", t).raw("ctx", context()).done();
    } else if (op == "path") {
        return j.i("t", t).raw("path", path()).done();
    } else if (op == "cur") { // current region by name
        int         r = 0;
        Caliper     c; // the thread is known to Caliper (the call refuses to create thread data)
        const char* s = cali_get_current_region_or(nullptr);
        if (s) {
            r       = -1;
            auto& v = values().vals[CALI_TYPE_STRING];
            for (size_t i = 0; i < v.size(); ++i)
                if (!strcmp(s, (const char*) v[i].data()))
                    r = i + 1;
        }
        return j.i("t", t).i("r", r).done();
    } else if (op == "cbegin" || op == "cset") { // cbegin t ch a v
        int ch = to_i(l[2]), a = to_i(l[3]), v = to_i(l[4]);
        Caliper c;
        if (op == "cbegin")
            c.begin(CH.at(ch).body(), A.a.at(a), A.make(a, v));
        else
            c.set(CH.at(ch).body(), A.a.at(a), A.make(a, v));
        j.i("t", t).i("ch", ch).i("a", a).i("v", v);
    } else if (op == "cend") {
        int     ch = to_i(l[2]), a = to_i(l[3]);
        Caliper c;
        c.end(CH.at(ch).body(), A.a.at(a));
        j.i("t", t).i("ch", ch).i("a", a);
    } else if (op == "cget") {
        int     ch = to_i(l[2]), a = to_i(l[3]);
        char    via = l.size() > 4 ? l[4][0] : 'p';
        Caliper c;
        Variant v = via == 'c' ? Variant(cali_channel_get(CH.at(ch).id(), A.a.at(a).id()))
                               : c.get(CH.at(ch).body(), A.a.at(a)).value();
        return j.i("t", t).i("ch", ch).i("a", a).i("r", v.empty() ? 0 : A.enc(c, a, A.a.at(a).id(), v)).done();
    } else if (op == "push") { // push t ch [a v]...
        int     ch = to_i(l[2]);
        Caliper c;
        auto    in = info_from(l, 3);
        J       ji('[');
        for (size_t p = 3; p + 1 < l.size(); p += 2)
            ji.el("[" + l[p] + "," + l[p + 1] + "]");
        if (CH.at(ch)) // like the library's own users of push_snapshot, which check the channel first
            c.push_snapshot(CH.at(ch).body(), SnapshotView(in.size(), in.data()));
        j.i("t", t).i("ch", ch).raw("info", ji.done(']'));
    } else if (op == "cpush") { // cpush t ch [a v]... through the C API; ch 0: all channels
        int                         ch = to_i(l[2]);
        std::vector<cali_id_t>      ids;
        std::vector<cali_variant_t> vs;
        J                           ji('[');
        for (size_t p = 3; p + 1 < l.size(); p += 2) {
            ids.push_back(A.a.at(to_i(l[p])).id());
            vs.push_back(A.make(to_i(l[p]), to_i(l[p + 1])).c_variant());
            ji.el("[" + l[p] + "," + l[p + 1] + "]");
        }
        if (ch == 0)
            cali_push_snapshot(0, ids.size(), ids.data(), vs.data());
        else
            cali_channel_push_snapshot(CH.at(ch).id(), 0, ids.size(), ids.data(), vs.data());
        j.i("t", t).i("ch", ch).raw("info", ji.done(']'));
    } else if (op == "cpull") { // cpull t ch a : snapshot through the C API: all entries, and those of attribute a
        int           ch = to_i(l[2]), a = to_i(l[3]);
        Caliper       known; // the calls refuse to create thread data
        unsigned char buf[8192];
        size_t        len = cali_channel_pull_snapshot(CH.at(ch).id(), 0, sizeof(buf), buf);
        struct Ctx {
            Caliper                  c;
            std::vector<std::string> v;
        } all, some;
        cali_entry_proc_fn fn = [](void* p, cali_id_t id, cali_variant_t v) -> int {
            Ctx* x  = static_cast<Ctx*>(p);
            int  ai = A.find(x->c, id);
            if (ai)
                x->v.push_back("[" + std::to_string(ai) + "," + std::to_string(A.enc(x->c, ai, id, Variant(v))) + "]");
            return 1;
        };
        size_t n1 = 0, n2 = 0, n3 = 0;
        cali_unpack_snapshot(buf, &n1, fn, &all);
        cali_find_all_in_snapshot(buf, A.a.at(a).id(), &n2, fn, &some);
        Variant f = Variant(cali_find_first_in_snapshot(buf, A.a.at(a).id(), &n3));
        // the order of the entries is not part of the interface
        std::sort(all.v.begin(), all.v.end());
        return j.i("t", t).i("ch", ch).i("a", a).i("len", len == n1 && n1 == n2 && n2 == n3 ? 1 : 0).raw("all", jarr(all.v))
            .raw("some", jarr(some.v)).i("first", f.empty() ? 0 : A.enc(all.c, a, A.a.at(a).id(), f)).done();
    } else if (op == "burst") { // burst t ch n kind a k v m : n snapshots with key values and metrics by formula
        //   snapshot i (0..n-1): attribute a = base + i mod k; metric m = (i * 7 + 3) mod 11
        int     ch = to_i(l[2]), n = to_i(l[3]), a = to_i(l[4]), k = to_i(l[5]), m = to_i(l[6]), b = to_i(l[7]);
        Caliper c;
        bool    sv = log_snap;
        for (int i = 0; i < n; ++i) {
            std::vector<Entry> in;
            Variant            v = AttrTable::makeraw(A.a.at(a).type(), b + i % k);
            in.push_back(A.a.at(a).store_as_value() ? Entry(A.a.at(a), v) : Entry(c.make_tree_entry(A.a.at(a), v)));
            in.push_back(Entry(A.a.at(m), AttrTable::makeraw(A.a.at(m).type(), (i * 7 + 3) % 11)));
            c.push_snapshot(CH.at(ch).body(), SnapshotView(in.size(), in.data()));
        }
        return j.i("t", t).i("ch", ch).i("n", n).i("a", a).i("k", k).i("m", m).i("b", b).i("nsnap", snaps.size()).done();
    } else if (op == "flush") { // flush t ch
        int         ch = to_i(l[2]);
        Caliper     c;
        J           jr('[');
        int         n = 0;
        c.flush(CH.at(ch).body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
            jr.el(enc_rec(c, rec));
            ++n;
        });
        return j.i("t", t).i("ch", ch).i("n", n).raw("recs", jr.done(']')).done();
    } else if (op == "mflush") { // mflush t ch
        int              ch = to_i(l[2]);
        Caliper          c;
        std::vector<int> ids;
        c.flush(CH.at(ch).body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
            ids.push_back(mark_find(c, rec));
        });
        return j.i("t", t).i("ch", ch).i("n", ids.size()).raw("runs", marks_json(ids)).done();
    } else if (op == "mwrite") { // mwrite t ch : flush and write
        int     ch = to_i(l[2]);
        Caliper c;
        c.flush_and_write(CH.at(ch).body(), SnapshotView());
        return j.i("t", t).i("ch", ch).raw("outs", outs_json(0)).done();
    } else if (op == "tburst") { // tburst t ch n seed maxentries seqattr attr...
        int      ch = to_i(l[2]), n = to_i(l[3]), maxe = to_i(l[5]);
        uint64_t x  = to_i(l[4]) * 2654435761ull + 12345;
        auto     rnd = [&](int k) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            return (int) ((x >> 33) % k);
        };
        Caliper                     c;
        static std::atomic<int>     seq(0);
        FixedSizeSnapshotRecord<120> dummy;
        for (int i = 0; i < n; ++i) {
            std::vector<Entry> in;
            Attribute          sa = A.a.at(to_i(l[6]));
            in.push_back(Entry(sa, cali_make_variant_from_uint(t * 10000000ull + ++seq)));
            int ne = rnd(4) ? rnd(maxe + 1) : maxe;
            for (int k = 0; k < ne && l.size() > 7; ++k) {
                int       ai = to_i(l[7 + rnd(l.size() - 7)]);
                Attribute at = A.a.at(ai);
                Variant   v  = values().get(at.type(), 1 + rnd(values().count(at.type())));
                in.push_back(at.store_as_value() ? Entry(at, v) : Entry(c.make_tree_entry(at, v)));
            }
            c.push_snapshot(CH.at(ch).body(), SnapshotView(in.size(), in.data()));
        }
        return j.i("t", t).i("ch", ch).i("n", n).raw("snap", jarr(snaps)).raw("outs", outs_json(0)).done();
    } else if (op == "clear") {
        int     ch = to_i(l[2]);
        Caliper c;
        c.clear(&CH.at(ch));
        return j.i("t", t).i("ch", ch).done();
    } else {
        fprintf(stderr, "unknown op %s\n", op.c_str());
        _exit(96);
    }
    auto cb = cbs, sn = snaps;
    if (log_cb)
        j.raw("cb", jarr(cb));
    if (log_snap)
        j.raw("snap", jarr(sn));
    if (log_snap && mark)
        j.raw("outs", outs_json(0));
    if (log_ctx)
        j.raw("ctx", context());
    if (log_ctx && log_path)
        j.raw("path", path());
    return j.done();
}

void run(const Scenario& sc)
{
    for (size_t li = 0; li < sc.lines.size(); ++li) {
        const Toks&        l  = sc.lines[li];
        const std::string& op = l[0];
        if (op == "ENV") {
            setenv(l[1].c_str(), l.size() > 2 ? l[2].c_str() : "", 1);
        } else if (op == "OPT") {
            for (size_t i = 1; i < l.size(); ++i) {
                if (l[i] == "noctx")
                    log_ctx = false;
                if (l[i] == "ctx")
                    log_ctx = true;
                if (l[i] == "nopath")
                    log_path = false;
                if (l[i] == "nocb")
                    log_cb = false;
                if (l[i] == "snap")
                    log_snap = true;
                if (l[i] == "nosnap")
                    log_snap = false;
                if (l[i] == "mark")
                    mark = true;
                if (l[i] == "intern")
                    intern = true;
                if (l[i] == "clock")
                    g_clock = 1000 * g_tick;
            }
        } else if (op == "TICK") { // TICK n idx... : unit of the virtual clock and of the values of these attributes
            g_tick  = to_i(l[1]);
            g_clock = 1000 * g_tick;
            for (size_t i = 2; i < l.size(); ++i)
                A.tick[to_i(l[i])] = g_tick;
        } else if (op == "A") { // A idx name type props [near dist]
            create_attr(
                to_i(l[1]), l[2], l[3], l[4], l.size() > 5 ? to_i(l[5]) : 0, l.size() > 6 ? to_i(l[6]) : 0
            );
            // model view of the attribute, from the request (not from the library)
            int         pr = l[2][0] == '@' ? CALI_ATTR_NESTED : parse_props(l[4]);
            const char* ds = getenv("CALI_CALIPER_ATTRIBUTE_DEFAULT_SCOPE");
            if (!(pr & CALI_ATTR_SCOPE_MASK))
                pr |= ds && !strcmp(ds, "process") ? CALI_ATTR_SCOPE_PROCESS : CALI_ATTR_SCOPE_THREAD;
            if (pr & CALI_ATTR_GLOBAL)
                pr = (pr & ~CALI_ATTR_SCOPE_MASK) | CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED;
int lvl = l[2] == "@phase" ? 4 : l[2] == "@comm" ? 1 : (pr & CALI_ATTR_LEVEL_MASK) >> 16;
            emit(J()
                     .str("e", "attr")
                     .i("a", to_i(l[1]))
                     .i("val", !!(pr & CALI_ATTR_ASVALUE))
                     .i("proc", (pr & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS)
                     .i("una", !!(pr & CALI_ATTR_UNALIGNED))
                     .i("hid", !!(pr & CALI_ATTR_HIDDEN))
                     .i("nest", !!(pr & CALI_ATTR_NESTED))
                     .i("skip", !!(pr & CALI_ATTR_SKIP_EVENTS))
                     .i("str", l[3] == "string")
                     .i("agg", !!(pr & CALI_ATTR_AGGREGATABLE))
                     .i("lvl", lvl));
        } else if (op == "RAW") { // RAW idx : the values of this attribute are integers
            A.raw.insert(to_i(l[1]));
        } else if (op == "N") { // N idx name [raw] : attribute created by the library, known by name
            A.names[l[2]] = to_i(l[1]);
            if (l.size() > 3)
                A.raw.insert(to_i(l[1]));
        } else if (op == "LA") { // LA idx loopname : iteration attribute
            cali_id_t id = cali_make_loop_iteration_attribute(l[2].c_str());
            A.add(to_i(l[1]), Caliper().get_attribute(id));
            A.raw.insert(to_i(l[1]));
            aname[to_i(l[1])] = "iteration#" + l[2];
            emit(J().str("e", "attr").i("a", to_i(l[1])).i("val", 1).i("proc", 0).i("una", 0).i("hid", 0).i("nest", 0)
                     .i("skip", 0).i("str", 0).i("agg", 0).i("lvl", 0).i("iter", 1));
        } else if (op == "texit") {
            int t = to_i(l[1]);
            W.erase(t);
            emit(J().str("e", op).i("t", t));
        } else if (op == "cnew" || op == "chan") { // create an inactive channel; chan ch name [key=value]...
            int                                ch = to_i(l[1]);
            std::map<std::string, std::string> cfg;
            for (size_t i = 3; i < l.size(); ++i) {
                size_t q              = l[i].find('=');
                cfg[l[i].substr(0, q)] = l[i].substr(q + 1);
            }
            Caliper       c;
            RuntimeConfig rc;
            if (op == "chan") {
                rc.allow_read_env(false);
                rc.import(cfg);
            }
            Channel chn = c.create_channel((op == "chan" ? l[2] : "ch" + l[1]).c_str(), rc);
            CH[ch]      = chn;
            if (op == "cnew")
                hook_events(ch, chn);
            else
                hook_snapshots(ch, chn);
            emit(J().str("e", "cnew").i("ch", ch).i("act", CH[ch].is_active()));
        } else if (op == "INFO") { // an event for the specification: INFO name json
            emit(J().str("e", l[1]).raw("x", l[2]));
        } else if (op == "con" || op == "coff") { // con ch via
            int     ch  = to_i(l[1]);
            char    via = l.size() > 2 ? l[2][0] : 'p';
            Caliper c;
            if (via == 'c')
                op == "con" ? cali_activate_channel(CH[ch].id()) : cali_deactivate_channel(CH[ch].id());
            else
                op == "con" ? c.activate_channel(CH[ch]) : c.deactivate_channel(CH[ch]);
            int act = via == 'c' ? cali_channel_is_active(CH[ch].id()) : CH[ch].is_active();
            emit(J().str("e", op).i("ch", ch).i("act", act ? 1 : 0));
        } else if (op == "cdel") {
            int     ch  = to_i(l[1]);
            char    via = l.size() > 2 ? l[2][0] : 'p';
            Caliper c;
            if (via == 'c')
                cali_delete_channel(CH[ch].id());
            else {
                Channel tmp = CH[ch];
                c.delete_channel(tmp);
            }
            CH.erase(ch);
            emit(J().str("e", op).i("ch", ch));
        } else if (op == "vdel") { // delete a channel and look for the validator's verdict in the log
            int  ch = to_i(l[1]);
            auto rd = [] {
                std::ifstream      is("/proc/self/fd/2");
                std::ostringstream os;
                os << is.rdbuf();
                return os.str();
            };
            std::string before = rd();
            {
                Caliper c;
                Channel tmp = CH[ch];
                c.delete_channel(tmp);
            }
            std::string after = rd().substr(before.size());
            size_t      none  = after.find("validator: No annotation nesting errors found");
            size_t      some  = after.find("validator: Annotation nesting errors found");
            bool        hint  = after.find("validator: ") < some || before.find("validator: incorrect nesting") != before.npos
                        || before.find("has no matching begin") != before.npos;
            CH.erase(ch);
            int res = none != after.npos && some == after.npos ? 0 : some != after.npos && none == after.npos ? 1 : -1;
            emit(J().str("e", op).i("ch", ch).i("res", res).i("hint", hint ? 1 : 0));
        } else if (op == "adv") { // advance the virtual clock
            g_clock += g_tick * to_i(l[1]);
            emit(J().str("e", op).i("d", to_i(l[1])));
        } else if (op == "par") { // operations up to endpar, each thread's concurrently with the others'
            std::map<int, std::vector<Toks>> prog;
            for (++li; li < sc.lines.size() && sc.lines[li][0] != "endpar"; ++li)
                prog[to_i(sc.lines[li][1])].push_back(sc.lines[li]);
            std::map<int, std::string> logs;
            std::atomic<int>           waiting((int) prog.size());
            for (auto& p : prog) {
                logs[p.first];
                if (p.first != 1 && !W[p.first])
                    W[p.first].reset(new Worker);
            }
            auto body = [&](int t) {
                --waiting;
                while (waiting.load() > 0)
                    ;
                for (const Toks& x : prog[t])
                    logs[t] += exec(x) + "\n";
            };
            for (auto& p : prog)
                if (p.first != 1)
                    W[p.first]->start([&body, t = p.first] { body(t); });
            if (prog.count(1))
                body(1);
            for (auto& p : prog)
                if (p.first != 1)
                    W[p.first]->wait();
            for (auto& p : logs) {
                out_buf() += p.second;
                if (out_buf().size() > (1u << 16))
                    flush_out();
            }
        } else {
            std::string ev;
            on_thread(to_i(l[1]), [&] { ev = exec(l); });
            emit(ev);
        }
    }
    // workers end before the process does
    for (auto& w : W)
        w.second.reset();
}
} // namespace

int main(int argc, char** argv)
{
    return run_all(argc, argv, run);
}
