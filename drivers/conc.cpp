// Concurrency and signals: one thread is stopped at any chosen instruction of an operation (single-stepping)
// while others execute theirs; or a signal handler runs at every instruction of an operation; or threads run freely.
#include "calih.h"
#include <atomic>
#include <chrono>
#include <sched.h>
#include <ucontext.h>
using namespace vf;

namespace
{

AttrTable               A;
std::map<int, Channel>  CH;
std::mutex              evt_mtx;
std::vector<std::pair<int, cali_id_t>> attr_evts; // <channel, attribute id>

thread_local SnapshotView*                 pushed = nullptr;
thread_local std::vector<Entry>*           pushrec = nullptr;
thread_local int                           npush = 0;

thread_local bool in_handler = false;
thread_local int  hn         = 0; // what the handler's own snapshot contained
thread_local Entry he[60];
Attribute         sig_info; // marks snapshots taken by a signal handler

struct Res {
    std::string        kind = "none";
    std::vector<long>  n;
    std::vector<Entry> ents;
    Attribute          attr;
    std::string        name;
    Node*              node   = nullptr;
    Node*              parent = nullptr;
};

// node slots of the scenario: written before use by the same thread only, or between rounds
std::map<int, std::atomic<Node*>> slots;
std::map<int, Attribute>          attr_by_slot; // filled between rounds

Attribute attr_of(int a) { return A.a.at(a); }

Res do_op(const Toks& t, size_t p)
{
    // t[p] operation, arguments follow
    Res                r;
    const std::string& o = t[p];
    auto               I = [&](size_t i) { return to_i(t.at(p + i)); };
    Caliper            c;
    if (o == "begin")
        c.begin(attr_of(I(1)), A.make(I(1), I(2)));
    else if (o == "end")
        c.end(attr_of(I(1)));
    else if (o == "endv")
        c.end_with_value_check(attr_of(I(1)), A.make(I(1), I(2)));
    else if (o == "set")
        c.set(attr_of(I(1)), A.make(I(1), I(2)));
    else if (o == "cset") // C API
        cali_set(attr_of(I(1)).id(), A.make(I(1), I(2)).data(), A.make(I(1), I(2)).size());
    else if (o == "get") {
        Entry e = c.get(attr_of(I(1)));
        r.kind  = "get";
        r.n     = { I(1) };
        r.ents  = { e };
    } else if (o == "xchg") {
        Variant v = c.exchange(attr_of(I(1)), A.make(I(1), I(2)));
        r.kind    = "xchg";
        r.n       = { I(1) };
        r.ents    = { v.empty() ? Entry() : Entry(attr_of(I(1)), v) };
    } else if (o == "snap") {
        FixedSizeSnapshotRecord<80> rec;
        c.pull_context(rec.builder());
        r.kind = "snap";
        r.ents.assign(rec.view().begin(), rec.view().end());
    } else if (o == "pull") {
        FixedSizeSnapshotRecord<80> rec;
        c.pull_snapshot(CH.at(I(1)).body(), SnapshotView(), rec.builder());
        r.kind = "snap";
        r.ents.assign(rec.view().begin(), rec.view().end());
    } else if (o == "push") {
        std::vector<Entry> rec;
        pushrec = &rec;
        npush   = 0;
        c.push_snapshot(CH.at(I(1)).body(), SnapshotView());
        pushrec = nullptr;
        r.kind  = "snap";
        r.n     = { npush };
        r.ents  = rec;
    } else if (o == "globals") {
        r.kind = "globals";
        r.ents = c.get_globals();
    } else if (o == "count") {
        long n = 0;
        c.flush(CH.at(I(1)).body(), SnapshotView(), [&n](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
            bool sig = false; // taken by a signal handler
            for (const Entry& e : rec)
                sig |= sig_info && e.attribute() == sig_info.id();
            n += !sig;
        });
        r.kind = "n";
        r.n    = { n };
    } else if (o == "mkattr") {
        // mkattr nameindex type props meta
        std::string name = "the.attribute." + t.at(p + 1);
        int         prop = parse_props(t.at(p + 3));
        int         meta = I(4);
        r.kind           = "attr";
        r.name           = name;
        std::string api  = t.size() > p + 5 ? t[p + 5] : "x";
        if (meta) {
            // 0..99: value of meta.int; +100, +200: also class.aggregatable, before or after it
            std::vector<Attribute>      ma;
            std::vector<cali_id_t>      ids;
            std::vector<Variant>        mv;
            std::vector<cali_variant_t> vals;
            if (meta / 100 == 1)
                ma.push_back(A.a.at(901)), mv.push_back(Variant(true));
            if (meta % 100)
                ma.push_back(A.a.at(900)), mv.push_back(Variant(meta % 100));
            if (meta / 100 == 2)
                ma.push_back(A.a.at(901)), mv.push_back(Variant(true));
            for (size_t i = 0; i < ma.size(); ++i)
                ids.push_back(ma[i].id()), vals.push_back(mv[i].c_variant());
            if (api == "c") {
                cali_id_t id = cali_create_attribute_with_metadata(name.c_str(), type_of(t.at(p + 2)), prop, (int) ids.size(), ids.data(), vals.data());
                r.attr = c.get_attribute(id);
            } else
                r.attr = c.create_attribute(name, type_of(t.at(p + 2)), prop, (int) ma.size(), ma.data(), mv.data());
        } else if (api == "c")
            r.attr = c.get_attribute(cali_create_attribute(name.c_str(), type_of(t.at(p + 2)), prop));
        else
            r.attr = c.create_attribute(name, type_of(t.at(p + 2)), prop);
    } else if (o == "find") {
        r.kind = "attr";
        r.name = "the.attribute." + t.at(p + 1);
        r.attr = c.get_attribute(r.name);
    } else if (o == "findc") {
        r.kind = "attr";
        r.name = "the.attribute." + t.at(p + 1);
        r.attr = c.get_attribute(cali_find_attribute(r.name.c_str()));
    } else if (o == "all") {
        r.kind = "all";
        for (const Attribute& a : c.get_all_attributes())
            if (a.name().compare(0, 14, "the.attribute.") == 0)
                r.n.push_back(to_i(a.name().substr(14)));
    } else if (o == "byid") {
        // metadata and lookup by id of an attribute found by name
        r.kind      = "attr";
        r.name      = "the.attribute." + t.at(p + 1);
        Attribute a = c.get_attribute(r.name);
        r.attr      = a ? c.get_attribute(a.id()) : a;
    } else if (o == "child" || o == "path" || o == "copy") {
        // child slot parentslot a v ; path slot parentslot a v1 v2 ... ; copy slot parentslot s1 s2 ...
        Node* par = I(2) ? slots.at(I(2)).load() : nullptr;
        Node* res = nullptr;
        if (o == "child")
            res = c.make_tree_entry(attr_of(I(3)), A.make(I(3), I(4)), par);
        else if (o == "path") {
            std::vector<Variant> v;
            for (size_t i = p + 4; i < t.size() && t[i] != ";" && t[i] != "|"; ++i)
                v.push_back(A.make(I(3), to_i(t[i])));
            res = c.make_tree_entry(attr_of(I(3)), v.size(), v.data(), par);
        } else {
            std::vector<const Node*> l;
            for (size_t i = p + 3; i < t.size() && t[i] != ";" && t[i] != "|"; ++i)
                l.push_back(slots.at(to_i(t[i])).load());
            res = c.make_tree_entry(l.size(), l.data(), par);
        }
        r.kind   = "node";
        r.node   = res;
        r.parent = par;
        r.n      = { I(1) };
        slots.at(I(1)).store(res);
    } else if (o == "chan" || o == "chanoff") {
        RuntimeConfig cfg;
        cfg.allow_read_env(false);
        std::map<std::string, std::string> m;
        m["CALI_SERVICES_ENABLE"]       = t.size() > p + 2 && t[p + 2] != ";" ? t[p + 2] : "";
        m["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
        m["CALI_CHANNEL_CONFIG_CHECK"]  = "false";
        cfg.import(m);
        int     k   = I(1);
        Channel chn = c.create_channel(("ch" + t[p + 1]).c_str(), cfg);
        chn.events().create_attr_evt.connect([k](Caliper*, const Attribute& a) {
            std::lock_guard<std::mutex> g(evt_mtx);
            attr_evts.push_back({ k, a.id() });
        });
        chn.events().process_snapshot.connect([](Caliper*, SnapshotView, SnapshotView rec) {
            if (in_handler) {
                hn = 0;
                for (const Entry& e : rec)
                    if (hn < 60 && e.attribute() != sig_info.id())
                        he[hn++] = e;
                return;
            }
            ++npush;
            if (pushrec)
                pushrec->assign(rec.begin(), rec.end());
        });
        CH[k] = chn;
        if (o == "chan")
            c.activate_channel(chn);
    } else if (o == "clearch") {
        c.clear(&CH.at(I(1)));
    } else if (o == "nop") {
    } else
        abort();
    return r;
}

std::string props_json(int p)
{
    J j('[');
    static const std::pair<const char*, int> names[] = {
        { "asvalue", CALI_ATTR_ASVALUE }, { "nomerge", CALI_ATTR_NOMERGE },     { "skip", CALI_ATTR_SKIP_EVENTS },
        { "hidden", CALI_ATTR_HIDDEN },   { "nested", CALI_ATTR_NESTED },       { "global", CALI_ATTR_GLOBAL },
        { "unaligned", CALI_ATTR_UNALIGNED }, { "agg", CALI_ATTR_AGGREGATABLE } };
    for (auto& n : names)
        if ((p & n.second) == n.second)
            j.el(J::q(n.first));
    int s = p & CALI_ATTR_SCOPE_MASK;
    if (s)
        j.el(J::q(s == CALI_ATTR_SCOPE_THREAD ? "thread" : s == CALI_ATTR_SCOPE_PROCESS ? "process" : "otherscope"));
    int l = p & CALI_ATTR_LEVEL_MASK;
    for (int i = 1; i < 8; ++i)
        if (l == parse_props("level" + std::to_string(i)))
            j.el(J::q("level" + std::to_string(i)));
    return j.done(']');
}

std::string node_json(Caliper& c, const Node* n)
{
    int ai = A.find(c, n->attribute());
    return J('[').el(n->id()).el(ai).el(A.enc(c, ai, n->attribute(), n->data())).el(n->parent() && n->parent()->id() != CALI_INV_ID ? (long) n->parent()->id() : -1).done(']');
}
bool reachable(const Node* n)
{
    if (!n->parent())
        return false;
    long k = 0;
    for (const Node* s = n->parent()->first_child(); s && k < 1000000; s = s->next_sibling(), ++k)
        if (s == n)
            return true;
    return false;
}

std::string enc_res(const Res& r)
{
    Caliper c;
    J       j;
    j.str("k", r.kind);
    if (r.kind == "get" || r.kind == "xchg") {
        const Entry& e = r.ents[0];
        int          a = (int) r.n[0];
        long         v = 0;
        if (!e.empty()) {
            Variant val = e.value();
            v           = A.enc(c, a, attr_of(a).id(), val);
        }
        j.i("v", v);
    } else if (r.kind == "snap" || r.kind == "globals") {
        j.raw("v", enc_list(c, A, r.ents)).i("n", r.n.empty() ? 1 : r.n[0]);
    } else if (r.kind == "n" || r.kind == "all")
        j.raw("v", jarr(r.n));
    else if (r.kind == "attr") {
        if (!r.attr)
            j.i("id", -1);
        else {
            long      m = 0;
            Attribute a = r.attr;
            for (int k : { 900, 901 })
                if (A.a.count(k)) {
                    Variant v = a.get(A.a[k]);
                    if (!v.empty())
                        m += k == 901 ? 100 : v.to_int();
                }
            bool same = a.name() == r.name && r.name == a.name_c_str();
            j.i("id", a.id()).str("type", cali_type2string(a.type())).raw("props", props_json(a.properties())).i("meta", m).raw("same", same ? "true" : "false");
        }
    } else if (r.kind == "node") {
        // from the node up to the parent that was asked for
        J p('[');
        for (const Node* n = r.node; n && n->id() != CALI_INV_ID && n != r.parent; n = n->parent())
            p.el(node_json(c, n));
        j.raw("p", p.done(']')).i("id", r.node && r.node->id() != CALI_INV_ID ? (long) r.node->id() : -1);
        j.i("par", r.parent ? (long) r.parent->id() : -1);
        const Node* top = r.node;
        while (top && top->parent() && top != r.parent)
            top = top->parent();
        j.raw("under", !r.parent || top == r.parent ? "true" : "false");
    }
    return j.done();
}

std::string call_json(int th, const Toks& t, size_t p, size_t end, int n)
{
    J args('[');
    for (size_t i = p + 1; i < end; ++i)
        args.el(isdigit(t[i][0]) || t[i][0] == '-' ? t[i] : J::q(t[i]));
    J j;
    j.str("e", "call").i("t", th).i("n", n).str("op", t[p]).raw("x", args.done(']'));
    if (t[p] == "mkattr")
        j.raw("props", props_json(parse_props(t[p + 3])));
    return j.done();
}

// ---- single-stepping

std::atomic<int>  ss_mode { 0 };  // 1: stop at step ss_k; 2: run the handler at every ss_k-th step
std::atomic<long> ss_k { 0 };
std::atomic<long> ss_count { 0 };
std::atomic<int>  ss_paused { 0 }, ss_resume { 0 };
int               sig_ch = 0, sig_attr = 0;

struct SigRes {
    int   granted;
    int   n;
    int   ch;
    Entry get;
    Entry e[60];
};
std::vector<SigRes>* sig_log = nullptr;
size_t               sig_n   = 0;
const size_t         SIG_MAX = 4000;

void sig_work()
{
    if (sig_n >= SIG_MAX)
        return;
    SigRes& r = (*sig_log)[sig_n];
    in_handler = true;
    memset((void*) &r, 0, sizeof(r));
    Caliper c = Caliper::sigsafe_instance();
    if (!c) {
        r.granted = 0;
    } else {
        r.granted = 1;
        FixedSizeSnapshotRecord<60> rec;
        Channel chn;
        long    k = ss_count.load();
        if (sig_ch && (k & 1))
            chn = c.get_channel(std::abs(sig_ch) - 1);
        if (chn && sig_ch < 0 && (k & 31) == 3) {
            // like a sampling service
            Entry info(sig_info, Variant((int) 1));
            hn = -1;
            c.push_snapshot(chn.body(), SnapshotView(1, &info));
            r.n = hn;
            for (int i = 0; i < hn; ++i)
                r.e[i] = he[i];
        } else {
            if (chn)
                c.pull_snapshot(chn.body(), SnapshotView(), rec.builder());
            else
                c.pull_context(rec.builder());
            SnapshotView v = rec.view();
            r.n            = (int) v.size();
            for (int i = 0; i < r.n; ++i)
                r.e[i] = v[i];
        }
        r.ch = 0;
        if (sig_attr)
            r.get = c.get(A.a.at(sig_attr));
        cali_get_current_region_or("x");
    }
    in_handler = false;
    if (sig_n > 0 && memcmp((void*) &r, (void*) &(*sig_log)[sig_n - 1], sizeof(r)) == 0)
        return;
    ++sig_n;
}

void on_trap(int, siginfo_t*, void* ctx)
{
    int  err = errno;
    long k = ++ss_count;
    if (ss_mode == 1 && k == ss_k) {
        ((ucontext_t*) ctx)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        ss_paused = 1;
        while (!ss_resume)
            sched_yield();
    } else if (ss_mode == 2) {
        if (k % ss_k == 0 && (k < 10000 || k % 32 == 0))
            sig_work();
        if (k > 40000) // enough of a long operation
            ((ucontext_t*) ctx)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    }
    errno = err;
}

inline void tf_on() { asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc"); }
inline void tf_off() { asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc"); }

std::map<int, Worker*>        W;
Worker&                       worker(int t)
{
    Worker*& w = W[t];
    if (!w)
        w = new Worker;
    return *w;
}
std::map<std::string, long> steps; // instructions of the last complete execution of an operation
int                         opnum = 0;

size_t op_end(const Toks& t, size_t p)
{
    while (p < t.size() && t[p] != ";" && t[p] != "|")
        ++p;
    return p;
}

bool uses_mkattr = false;

void attr_events()
{
    std::vector<std::pair<int, cali_id_t>> v;
    {
        std::lock_guard<std::mutex> g(evt_mtx);
        v.swap(attr_evts);
    }
    if (!uses_mkattr)
        return;
    J j('[');
    for (auto& x : v)
        if (Caliper::instance().get_attribute(x.second).name().compare(0, 14, "the.attribute.") == 0)
            j.el(J('[').el(x.first).el(x.second).done(']'));
    emit(J().str("e", "attrevt").raw("x", j.done(']')));
}

void ret(int th, int n, const Res& r) { emit(J().str("e", "ret").i("t", th).i("n", n).raw("r", enc_res(r))); }

void run(const Scenario& sc)
{
    A.ignore.insert({ "vf.sig", "time.duration.ns", "time.offset.ns", "time.duration", "time.offset", "sum#time.duration" });
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_trap;
    sa.sa_flags     = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
    for (int i = 1; i <= 2000; ++i)
        slots[i].store(nullptr);
    for (const Toks& t : sc.lines)
        for (const std::string& x : t)
            if (x == "mkattr")
                uses_mkattr = true;
    for (const Toks& t : sc.lines) {
        const std::string& o = t[0];
        if (o == "cfg")
            cali_config_set(t[1].c_str(), t[2].c_str());
        else if (o == "INFO")
            emit("{\"e\":" + J::q(t[1]) + ",\"x\":" + t[2] + "}");
        else if (o == "attr") {
            // attr i type props : an attribute the operations use
            Caliper     c;
            int         prop = parse_props(t[3]);
            Attribute   a    = c.create_attribute("a." + t[1], type_of(t[2]), prop);
            A.add(to_i(t[1]), a);
            int p = a.properties();
            emit(J().str("e", "attr").i("a", to_i(t[1])).raw("k", J().raw("val", p & CALI_ATTR_ASVALUE ? "true" : "false").raw("proc", (p & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS ? "true" : "false").raw("una", p & CALI_ATTR_UNALIGNED ? "true" : "false").raw("hid", p & CALI_ATTR_HIDDEN ? "true" : "false").raw("nest", p & CALI_ATTR_NESTED ? "true" : "false").raw("skip", p & CALI_ATTR_SKIP_EVENTS ? "true" : "false").raw("str", a.type() == CALI_TYPE_STRING ? "true" : "false").done()));
        } else if (o == "raw")
            A.raw.insert(to_i(t[1]));
        else if (o == "meta") {
            Caliper c;
            A.add(900, c.create_attribute("meta.int", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS));
            A.add(901, c.get_attribute("class.aggregatable"));
            A.raw.insert(900);
        } else if (o == "do") {
            // do t op...
            int th = to_i(t[1]), n = ++opnum;
            Res r;
            emit(call_json(th, t, 2, t.size(), n));
            worker(th).run([&] { r = do_op(t, 2); });
            ret(th, n, r);
            attr_events();
        } else if (o == "align") {
            // align t m r slot attr v : a chain of nodes below the slot's, until the last one's id is r (modulo m)
            int  th = to_i(t[1]);
            long v  = to_i(t[6]);
            Node* nd;
            do {
                Toks q { "child", t[4], t[4], t[5], std::to_string(v++) };
                int  n = ++opnum;
                Res  r;
                emit(call_json(th, q, 0, q.size(), n));
                worker(th).run([&] { r = do_op(q, 0); });
                ret(th, n, r);
                nd = slots[to_i(t[4])].load();
            } while (nd && long(nd->id() % to_i(t[2])) != to_i(t[3]));
        } else if (o == "join") {
            int th = to_i(t[1]);
            if (W.count(th)) {
                W[th]->join();
                delete W[th];
                W.erase(th);
                emit(J().str("e", "join").i("t", th));
            }
        } else if (o == "race") {
            // race t fraction|@k op... | t op... ; t op... : the others run while the first one is stopped
            int         ta   = to_i(t[1]);
            double      f    = atof(t[2].c_str());
            size_t      ea   = op_end(t, 3);
            std::string key  = t[3] + (t.size() > 4 ? t[4] : "");
            long        last = steps.count(key) ? steps[key] : steps.count(t[3]) ? steps[t[3]] : 1500;
            ss_k             = std::max(1l, t[2][0] == '@' ? atol(t[2].c_str() + 1) : (long) (f * last));
            ss_count = 0;
            ss_paused = ss_resume = 0;
            std::atomic<int> adone { 0 };
            Res              ra;
            int              na = ++opnum;
            emit(call_json(ta, t, 3, ea, na));
            worker(ta);
            struct B { int th; size_t p, e; int n; Res r; std::atomic<int> done { 0 }; };
            std::vector<std::unique_ptr<B>> bs;
            for (size_t p = ea + 1; p < t.size(); p = op_end(t, p) + 1) {
                std::unique_ptr<B> b(new B);
                b->th = to_i(t[p]);
                b->p  = p + 1;
                b->e  = op_end(t, p);
                b->n  = ++opnum;
                worker(b->th);
                bs.push_back(std::move(b));
            }
            ss_mode = 1;
            worker(ta).start([&] {
                tf_on();
                ra = do_op(t, 3);
                tf_off();
                adone = 1;
            });
            while (!ss_paused && !adone)
                sched_yield();
            bool paused = ss_paused;
            if (!paused) {
                worker(ta).wait();
                steps[key] = steps[t[3]] = ss_count;
                ret(ta, na, ra);
            }
            // the others, one after the other; one that waits for the stopped thread continues later
            size_t i = 0;
            std::vector<std::function<void()>> rets;
            for (; i < bs.size(); ++i) {
                B* b = bs[i].get();
                emit(call_json(b->th, t, b->p, b->e, b->n));
                worker(b->th).start([&t, b] {
                    b->r    = do_op(t, b->p);
                    b->done = 1;
                });
                auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(3);
                while (!b->done && (!paused || std::chrono::steady_clock::now() < until))
                    sched_yield();
                if (!b->done)
                    break;
                worker(b->th).wait();
                ret(b->th, b->n, b->r);
            }
            ss_resume = 1;
            if (i < bs.size()) {
                worker(bs[i]->th).wait();
                ret(bs[i]->th, bs[i]->n, bs[i]->r);
                for (++i; i < bs.size(); ++i) {
                    B* b = bs[i].get();
                    emit(call_json(b->th, t, b->p, b->e, b->n));
                    worker(b->th).run([&t, b] { b->r = do_op(t, b->p); });
                    ret(b->th, b->n, b->r);
                }
            }
            if (paused) {
                worker(ta).wait();
                ret(ta, na, ra);
            }
            ss_mode = 0;
            attr_events();
        } else if (o == "sweep") {
            // sweep t every ch attr op... : a signal handler looks at the context at every instruction
            int th = to_i(t[1]), n = ++opnum;
            std::vector<SigRes> log(SIG_MAX);
            sig_log  = &log;
            sig_n    = 0;
            if (!sig_info)
                sig_info = Caliper::instance().create_attribute("vf.sig", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
            ss_k     = to_i(t[2]);
            sig_ch   = to_i(t[3]);
            sig_attr = to_i(t[4]);
            ss_count = 0;
            Res r;
            worker(th);
            ss_mode = 2;
            worker(th).run([&] {
                sig_work();
                tf_on();
                r = do_op(t, 5);
                tf_off();
                ss_mode = 0;
                ++ss_count;
                sig_work();
            });
            Caliper c;
            J       s('[');
            for (size_t i = 0; i < sig_n; ++i) {
                J x('[');
                x.el(log[i].granted);
                if (log[i].granted) {
                    x.el(enc_list(c, A, std::vector<Entry>(log[i].e, log[i].e + log[i].n)));
                    x.el(sig_attr && !log[i].get.empty() ? A.enc(c, sig_attr, A.a[sig_attr].id(), log[i].get.value()) : 0);
                }
                s.el(x.done(']'));
            }
            J j;
            std::string cj = call_json(th, t, 5, t.size(), n);
            emit("{\"e\":\"sweep\"" + cj.substr(cj.find(',')).substr(0, cj.size() - cj.find(',') - 1) + ",\"steps\":" + std::to_string(ss_count.load()) + ",\"sa\":" + std::to_string(sig_attr) + ",\"full\":" + (sig_n >= SIG_MAX ? "1" : "0") + ",\"s\":" + s.done(']') + ",\"r\":" + enc_res(r) + "}");
            attr_events();
        } else if (o == "par") {
            // par | t op ... ; t op ... : each thread executes its operations freely, all threads at once
            std::map<int, std::vector<std::pair<size_t, size_t>>> ops;
            for (size_t p = 2; p < t.size(); p = op_end(t, p) + 1)
                ops[to_i(t[p])].push_back({ p + 1, op_end(t, p) });
            struct P { int th; size_t p, e; int n; long tc, tr; Res r; };
            static std::atomic<long> ticket { 0 };
            std::atomic<int> ready { 0 };
            std::map<int, std::vector<P>> res;
            for (auto& x : ops)
                for (auto& y : x.second) {
                    P q;
                    q.th = x.first;
                    q.p = y.first;
                    q.e = y.second;
                    q.n = ++opnum;
                    res[x.first].push_back(q);
                }
            int n = (int) res.size();
            for (auto& x : res) {
                auto* v = &x.second;
                worker(x.first).start([&t, v, &ready, n] {
                    ++ready;
                    while (ready < n)
                        ;
                    for (P& q : *v) {
                        q.tc = ++ticket;
                        q.r  = do_op(t, q.p);
                        q.tr = ++ticket;
                    }
                });
            }
            std::map<long, std::function<void()>> order;
            for (auto& x : res) {
                worker(x.first).wait();
                for (P& q : x.second) {
                    P* qp = &q;
                    order[q.tc] = [&t, qp] { emit(call_json(qp->th, t, qp->p, qp->e, qp->n)); };
                    order[q.tr] = [qp] { ret(qp->th, qp->n, qp->r); };
                }
            }
            for (auto& x : order)
                x.second();
            attr_events();
        } else if (o == "tree") {
            // all nodes of the attributes used here, as every thread resolves them
            J     j('[');
            Caliper c;
            std::set<int> th;
            for (auto& w : W)
                th.insert(w.first);
            long n = 0, empty = 0;
            for (cali_id_t id = 0; empty < 100000 && id < 3000000; ++id) {
                Node* nd = c.node(id);
                if (!nd || nd->attribute() == 0) {
                    ++empty;
                    continue;
                }
                empty  = 0;
                int ai = A.find(c, nd->attribute());
                if (ai == 0 || ai == 9999)
                    continue;
                bool ok = nd->id() == id && reachable(nd);
                ++n;
                j.el(J('[').el(nd->id()).el(ai).el(A.enc(c, ai, nd->attribute(), nd->data())).el(nd->parent() && nd->parent()->id() != CALI_INV_ID ? (long) nd->parent()->id() : -1).el(ok ? 1 : 0).done(']'));
            }
            // resolution in the other threads
            std::atomic<int> bad { 0 };
            for (int w : th)
                worker(w).run([&] {
                    Caliper cc;
                    for (auto& s : slots) {
                        Node* p = s.second.load();
                        if (p && p->id() != CALI_INV_ID && cc.node(p->id()) != p)
                            ++bad;
                    }
                });
            emit(J().str("e", "tree").raw("x", j.done(']')).i("bad", bad));
        }
    }
    // stop the workers cleanly
    for (auto& w : W)
        w.second->join();
}

} // namespace

int main(int argc, char** argv)
{
    return vf::run_all(argc, argv, run, 75);
}
