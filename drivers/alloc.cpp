// Driver for memory region tracking (specs AllocSpec, AllocTrace).
#include "calih.h"
#include "caliper/cali_datatracker.h"
#include <atomic>
using namespace vf;
namespace cali { extern Attribute class_memoryaddress_attr; }
namespace
{
std::map<int, std::unique_ptr<Worker>> W;
std::map<int, Channel>                 CH;
std::map<int, Attribute>               MA;
uint64_t                               base = 0x10000000, unit = 1;
bool                                   concurrent = false;
thread_local std::vector<std::string>  snaps;
thread_local std::vector<std::string>  path;

std::string label(int i)
{
    return i == 1 ? "" : i == 2 ? std::string(400, 'x') : "label," + std::to_string(i);
}
int unlabel(const Variant& v)
{
    for (int i = 1; i < 60; ++i) {
        std::string s = label(i);
        if (v.type() == CALI_TYPE_STRING && v.size() == s.size() && !memcmp(v.data(), s.data(), s.size()))
            return i;
    }
    return 0;
}
// amounts in units
long amount(const Variant& v)
{
    if (v.type() == CALI_TYPE_INT) {
        long x = v.to_int64();
        return x % (long) unit ? -777777 : x / (long) unit;
    }
    uint64_t u = v.to_uint();
    return u % unit || u / unit > 2000000000ull ? -777777 : (long) (u / unit);
}
long address(const Variant& v)
{
    uint64_t u = v.to_uint() - base;
    return u % unit || u / unit > 2000000000ull ? -777777 : (long) (u / unit);
}

void on_snapshot(int ch, Caliper& c, SnapshotView rec)
{
    long al = -1, fr = -1, size = 0, uid = 0, addr = -1, active = -1, hwm = -1, x = 0;
    std::map<int, std::array<long, 4>> res; // label, uid, index, extra
    std::map<int, int>                 cnt;
    for (const Entry& e : rec) {
        if (e.is_reference()) {
            long ex = 0;
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
                std::string a = c.get_attribute(n->attribute()).name();
                if (a == "extra.attr")
                    ex = n->data().to_int();
            }
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
                std::string a = c.get_attribute(n->attribute()).name();
                if (a == "mem.alloc")
                    al = al == -1 ? unlabel(n->data()) : 0, x = ex;
                else if (a == "mem.free")
                    fr = fr == -1 ? unlabel(n->data()) : 0, x = ex;
                else
                    for (auto& m : MA)
                        if (a == "alloc.label#" + m.second.name()) {
                            if (!res.count(m.first))
                                res[m.first] = { 0, 0, -1, 0 };
                            res[m.first][0] = unlabel(n->data());
                            res[m.first][3] = ex;
                            ++cnt[m.first];
                        }
            }
        } else if (e.is_immediate()) {
            std::string a = c.get_attribute(e.attribute()).name();
            Variant     v = e.value();
            if (a == "alloc.total_size")
                size = amount(v);
            else if (a == "alloc.uid")
                uid = v.to_int();
            else if (a == "alloc.address")
                addr = address(v);
            else if (a == "mem.active")
                active = amount(v);
            else if (a == "alloc.region.highwatermark")
                hwm = amount(v);
            else
                for (auto& m : MA) {
                    if (!res.count(m.first) && (a == "alloc.uid#" + m.second.name() || a == "alloc.index#" + m.second.name()))
                        res[m.first] = { 0, 0, -1, 0 };
                    if (a == "alloc.uid#" + m.second.name())
                        res[m.first][1] = v.to_int();
                    if (a == "alloc.index#" + m.second.name())
                        res[m.first][2] = v.to_uint() > 2000000000 ? -1 : (long) v.to_uint();
                }
        }
    }
    J jr('[');
    for (auto& r : res) {
        for (int i = 0; i < std::max(cnt[r.first], 1); ++i) {
            J q('[');
            q.el(r.first).el(r.second[0]).el(r.second[1]).el(r.second[2]).el(r.second[3]);
            jr.el(q.done(']'));
        }
    }
    snaps.push_back(J().i("ch", ch).i("al", al).i("fr", fr).i("size", size).i("uid", uid).i("addr", addr).i("active", active)
                        .i("hwm", hwm).i("x", x).raw("res", jr.done(']')).done());
}

std::string exec(const Toks& l)
{
    const std::string& op = l[0];
    int                t  = to_i(l[1]);
    snaps.clear();
    J j;
    j.str("e", op).i("t", t);
    Caliper c;
    if (op == "reg") { // reg t name|- : begin a region or end the innermost one
        if (l[2] == "-") {
            if (!path.empty())
                c.end(cali::region_attr), path.pop_back();
        } else
            c.begin(cali::region_attr, Variant(l[2].c_str())), path.push_back(l[2]);
        return j.done();
    } else if (op == "track") { // track t addr lab elem extra via dims...
        long                addr = to_i(l[2]);
        int                 lab = to_i(l[3]);
        size_t              elem = to_i(l[4]) * unit;
        int                 x = to_i(l[5]);
        std::vector<size_t> dims;
        long                n = 1;
        for (size_t i = 7; i < l.size(); ++i)
            dims.push_back(to_i(l[i])), n *= to_i(l[i]);
        const void* p = (const void*) (base + addr * unit);
        std::string s = label(lab);
        Attribute   ea = c.create_attribute("extra.attr", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
        Variant     ev(x);
        if (x)
            c.memory_region_begin(p, s.c_str(), elem, dims.size(), dims.data(), 1, &ea, &ev);
        else if (l[6] == "c")
            cali_datatracker_track_dimensional(p, s.c_str(), elem, dims.data(), dims.size());
        else if (l[6] == "s") // one dimension, element size 1 byte: unit has to be 1
            cali_datatracker_track(p, s.c_str(), dims[0]);
        else
            c.memory_region_begin(p, s.c_str(), elem, dims.size(), dims.data());
        std::string ps;
        for (auto& q : path)
            ps += q + "/";
        j.i("addr", addr).i("lab", lab).i("size", to_i(l[4]) * n).i("elem", to_i(l[4])).i("x", x).str("path", ps);
    } else if (op == "untrack") { // untrack t addr via
        const void* p = (const void*) (base + to_i(l[2]) * unit);
        l[3] == "c" ? cali_datatracker_untrack(p) : c.memory_region_end(p);
        j.i("addr", to_i(l[2]));
    } else if (op == "push") { // push t ch sub [k addr]...
        std::vector<Entry> in;
        J                  jq('[');
        for (size_t i = 4; i + 1 < l.size(); i += 2) {
            uint64_t a = base + to_i(l[i + 1]) * unit + (to_i(l[3]) ? unit - 1 : 0);
            in.push_back(Entry(MA.at(to_i(l[i])), Variant(CALI_TYPE_ADDR, &a, sizeof(a))));
            jq.el("[" + l[i] + "," + l[i + 1] + "]");
        }
        c.push_snapshot(CH.at(to_i(l[2])).body(), SnapshotView(in.size(), in.data()));
        j.i("ch", to_i(l[2])).raw("q", jq.done(']'));
    } else if (op == "sflush") { // sflush t ch
        J jr('[');
        c.flush(CH.at(to_i(l[2])).body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
            std::string p;
            long        v[4] = { -1, -1, -1, -1 };
            bool        has  = false;
            for (const Entry& e : rec) {
                if (e.is_reference()) {
                    for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                        if (n->attribute() == cali::region_attr.id())
                            p = n->data().to_string() + "/" + p;
                } else {
                    std::string a = db.get_attribute(e.attribute()).name();
                    const char* nm[] = { "alloc.tally", "alloc.count", "max#alloc.size", "avg#alloc.size" };
                    for (int i = 0; i < 4; ++i)
                        if (a == nm[i])
                            v[i] = i == 1 ? e.value().to_int() : i == 3 ? (long) (e.value().to_uint() / unit) : amount(e.value()), has = true;
                }
            }
            if (has) {
                J q('[');
                q.el(J::q(p)).el(v[0]).el(v[1]).el(v[2]).el(v[3]);
                jr.el(q.done(']'));
            }
        });
        return j.i("ch", to_i(l[2])).raw("rows", jr.done(']')).done();
    } else {
        fprintf(stderr, "unknown op %s\n", op.c_str());
        _exit(96);
    }
    auto sn = snaps;
    return j.i("p", concurrent).raw("snap", jarr(sn)).done();
}

void run(const Scenario& sc)
{
    for (size_t li = 0; li < sc.lines.size(); ++li) {
        const Toks& l  = sc.lines[li];
        auto        op = l[0];
        Caliper     c;
        if (op == "SCALE") { // SCALE base unit
            base = strtoull(l[1].c_str(), 0, 0);
            unit = strtoull(l[2].c_str(), 0, 0);
        } else if (op == "ma") { // ma k : create a memory address attribute
            Variant v(true);
            MA[to_i(l[1])] = c.create_attribute("ma." + l[1], CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 1,
                                                &cali::class_memoryaddress_attr, &v);
            emit(J().str("e", op).i("k", to_i(l[1])));
        } else if (op == "chan") { // chan ch alloc res trk act hwm stats shwm
            std::map<std::string, std::string> m;
            auto on = [&](int i) { return to_i(l[i]) ? std::string("true") : std::string("false"); };
            m["CALI_SERVICES_ENABLE"] = to_i(l[3 - 1]) ? "alloc" : "allocstats";
            m["CALI_ALLOC_RESOLVE_ADDRESSES"] = on(3);
            m["CALI_ALLOC_TRACK_ALLOCATIONS"] = on(4);
            m["CALI_ALLOC_RECORD_ACTIVE_MEM"] = on(5);
            m["CALI_ALLOC_RECORD_HIGHWATERMARK"] = on(6);
            m["CALI_ALLOCSTATS_RECORD_HIGHWATERMARK"] = on(8);
            RuntimeConfig rc;
            rc.allow_read_env(false);
            rc.import(m);
            int ch = to_i(l[1]);
            CH[ch] = c.create_channel(("c" + l[1]).c_str(), rc);
            CH[ch].events().process_snapshot.connect(
                [ch](Caliper* c, SnapshotView, SnapshotView rec) { on_snapshot(ch, *c, rec); });
            emit(J().str("e", op).i("ch", ch).i("alloc", to_i(l[2])).i("res", to_i(l[3])).i("trk", to_i(l[4])).i("act", to_i(l[5]))
                     .i("hwm", to_i(l[6])).i("stats", to_i(l[7])).i("shwm", to_i(l[8])));
        } else if (op == "con" || op == "coff") {
            op == "con" ? c.activate_channel(CH.at(to_i(l[1]))) : c.deactivate_channel(CH.at(to_i(l[1])));
            emit(J().str("e", op).i("ch", to_i(l[1])));
        } else if (op == "par") {
            std::map<int, std::vector<Toks>> prog;
            for (++li; sc.lines[li][0] != "endpar"; ++li)
                prog[to_i(sc.lines[li][1])].push_back(sc.lines[li]);
            std::map<int, std::string> logs;
            std::atomic<int>           waiting((int) prog.size());
            concurrent = true;
            for (auto& p : prog) {
                int t = p.first;
                logs[t];
                if (!W[t])
                    W[t].reset(new Worker);
            }
            for (auto& p : prog)
                W[p.first]->start([&, t = p.first] {
                    --waiting;
                    while (waiting.load() > 0)
                        ;
                    for (const Toks& x : prog[t])
                        logs[t] += exec(x) + "\n";
                });
            for (auto& p : prog)
                W[p.first]->wait();
            concurrent = false;
            for (auto& p : logs)
                out_buf() += p.second;
            emit(J().str("e", "parend"));
        } else {
            std::string ev;
            int         t = to_i(l[1]);
            if (!W[t])
                W[t].reset(new Worker);
            W[t]->run([&] { ev = exec(l); });
            emit(ev);
        }
    }
    for (auto& w : W)
        w.second.reset();
}
} // namespace
int main(int argc, char** argv) { return run_all(argc, argv, run); }
