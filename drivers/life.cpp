// Life cycle of Caliper, channels and threads: a logging service records every notification it receives.
#include "calih.h"
#include "../src/services/Services.h"
#include "caliper/cali_datatracker.h"
#include <iterator>

using namespace vf;

namespace
{

int first_channel = 0;
thread_local int                                       tl_thread = 1;
bool                                                   in_op     = false;
std::vector<std::string>*                              cbs       = nullptr;
std::map<std::string, int>*                            chan_of   = nullptr; // by name
std::map<int, bool>*                                   hooks     = nullptr;
std::map<int, Channel>*                                chans     = nullptr;
std::map<int, cali_id_t>*                              attrs     = nullptr;
std::map<int, Worker*>*                                workers   = nullptr;
std::vector<Toks>*                                     late      = nullptr;
std::map<int, Annotation*>*                            annots    = nullptr;

void put(const std::string& s)
{
    std::string l = s + "\n";
    size_t      p = 0;
    while (p < l.size()) {
        ssize_t n = write(out_fd(), l.data() + p, l.size() - p);
        if (n <= 0)
            _exit(97);
        p += n;
    }
}

void cb(const char* k, int ch)
{
    if (in_op)
        cbs->push_back(J('[').el(J::q(k)).el(ch).el(tl_thread).done(']'));
    else
        put(J().str("e", "cb").str("k", k).i("ch", ch).i("t", tl_thread).done());
}

Attribute mkattr(Caliper& c, int k)
{
    static const int props[] = { 0, CALI_ATTR_NESTED, CALI_ATTR_ASVALUE, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_NESTED, CALI_ATTR_SKIP_EVENTS, 0 };
    return c.create_attribute("attr" + std::to_string(k), k == 2 ? CALI_TYPE_INT : CALI_TYPE_STRING, props[k]);
}
Variant mkval(int a, int v)
{
    static const char* names[] = { "x", "y", "z", "foo" };
    return a == 2 ? Variant(v) : Variant(names[v % 4]);
}

void register_vf(Caliper* c, Channel* channel)
{
    int   k  = chan_of->at(channel->name());
    auto& ev = channel->events();
    typedef const Attribute& A;
    typedef const Variant&   V;
    ev.post_init_evt.connect([k](Caliper*, Channel*) { cb("post_init", k); });
    ev.create_thread_evt.connect([k](Caliper*, Channel*) { cb("create_thread", k); });
    ev.release_thread_evt.connect([k](Caliper*, Channel*) { cb("release_thread", k); });
    ev.pre_begin_evt.connect([k](Caliper*, ChannelBody*, A, V) { cb("pre_begin", k); });
    ev.post_begin_evt.connect([k](Caliper*, ChannelBody*, A, V) { cb("post_begin", k); });
    ev.pre_set_evt.connect([k](Caliper*, ChannelBody*, A, V) { cb("pre_set", k); });
    ev.pre_end_evt.connect([k](Caliper*, ChannelBody*, A, V) { cb("pre_end", k); });
    ev.async_event.connect([k](Caliper*, ChannelBody*, SnapshotView) { cb("async", k); });
    ev.snapshot.connect([k](Caliper*, SnapshotView, SnapshotBuilder&) { cb("snapshot", k); });
    ev.process_snapshot.connect([k](Caliper*, SnapshotView, SnapshotView) { cb("process", k); });
    ev.pre_flush_evt.connect([k](Caliper*, ChannelBody*, SnapshotView) { cb("pre_flush", k); });
    ev.flush_evt.connect([k](Caliper*, SnapshotView, SnapshotFlushFn) { cb("flush", k); });
    ev.post_flush_evt.connect([k](Caliper*, ChannelBody*, SnapshotView) { cb("post_flush", k); });
    ev.write_output_evt.connect([k](Caliper*, ChannelBody*, SnapshotView) { cb("write", k); });
    ev.track_mem_evt.connect([k](Caliper*, ChannelBody*, const void*, const char*, size_t, size_t, const size_t*, size_t, const Attribute*, const Variant*) {
        cb("track", k);
    });
    ev.untrack_mem_evt.connect([k](Caliper*, ChannelBody*, const void*) { cb("untrack", k); });
    ev.clear_evt.connect([k](Caliper*, Channel*) { cb("clear", k); });
    ev.pre_finish_evt.connect([k](Caliper* c, Channel* chn) {
        cb("pre_finish", k);
        if ((*hooks)[k]) {
            Attribute a = mkattr(*c, 1);
            c->begin(a, mkval(1, 0));
            c->push_snapshot(chn->body(), SnapshotView());
            c->end(a);
        }
    });
    ev.finish_evt.connect([k](Caliper*, Channel*) { cb("finish", k); });
}

const CaliperService vf_services[] = { { "vf", register_vf }, { nullptr, nullptr } };

int do_op(const Toks& t)
{
    const std::string& o = t[0];
    int                k = t.size() > 2 ? to_i(t[2]) : 0;
    int                v = t.size() > 3 ? to_i(t[3]) : 0;
    if (o == "use") {
        Caliper c;
        return c ? 1 : 0;
    }
    if (o == "release") {
        Caliper::release();
        return 0;
    }
    if (o == "create") {
        // create t k services foe active hook api
        std::string name = t[8];
        (*chan_of)[name] = k;
        (*hooks)[k]      = to_i(t[6]);
        if (!first_channel)
            first_channel = k;
        std::map<std::string, std::string> m;
        m["CALI_SERVICES_ENABLE"]       = t[3];
        m["CALI_CHANNEL_CONFIG_CHECK"]  = "false";
        m["CALI_RECORDER_FILENAME"]     = "stdout";
        if (t[4] != "d")
            m["CALI_CHANNEL_FLUSH_ON_EXIT"] = to_i(t[4]) ? "true" : "false";
        if (t[7] == "c") {
            cali_configset_t cs = cali_create_configset(nullptr);
            for (auto& p : m)
                cali_configset_set(cs, p.first.c_str(), p.second.c_str());
            cali_id_t id = cali_create_channel(name.c_str(), to_i(t[5]) ? 0 : CALI_CHANNEL_LEAVE_INACTIVE, cs);
            cali_delete_configset(cs);
            (*chans)[k] = Caliper::instance().get_channel(id);
            return id == CALI_INV_ID ? 0 : 1;
        }
        if (t[7] == "x") {
            cali_id_t id = create_channel(name.c_str(), to_i(t[5]) ? 0 : CALI_CHANNEL_LEAVE_INACTIVE, m);
            (*chans)[k] = Caliper::instance().get_channel(id);
            return id == CALI_INV_ID ? 0 : 1;
        }
        RuntimeConfig cfg;
        cfg.allow_read_env(false);
        cfg.import(m);
        Caliper c;
        Channel chn = c.create_channel(name.c_str(), cfg);
        (*chans)[k] = chn;
        if (chn && to_i(t[5]))
            c.activate_channel(chn);
        return chn ? 1 : 0;
    }
    if (o == "act" || o == "deact" || o == "del" || o == "isact") {
        // act t k api
        Channel& chn = (*chans)[k];
        if (!chn)
            return 0;
        if (t[3] == "c") {
            cali_id_t id = chn.id();
            if (o == "act")
                cali_activate_channel(id);
            else if (o == "deact")
                cali_deactivate_channel(id);
            else if (o == "del")
                cali_delete_channel(id);
            else
                return cali_channel_is_active(id);
        } else {
            Caliper c;
            if (o == "act")
                c.activate_channel(chn);
            else if (o == "deact")
                c.deactivate_channel(chn);
            else if (o == "del")
                c.delete_channel(chn);
            else
                return chn.is_active();
        }
        return 0;
    }
    if (o == "attr") {
        Caliper   c;
        Attribute a = mkattr(c, k);
        if (a)
            (*attrs)[k] = a.id();
        return a ? 1 : 0;
    }
    // annotations on the C++ API, the C API and by name
    std::string api = t.size() > 4 ? t[4] : "x";
    if (o == "begin" || o == "set" || o == "end") {
        std::string name = "attr" + std::to_string(k);
        Variant     val  = mkval(k, v);
        if (api == "c" && attrs->count(k)) {
            cali_id_t id = (*attrs)[k];
            if (o == "begin")
                k == 2 ? cali_begin_int(id, v) : cali_begin_string(id, val.to_string().c_str());
            else if (o == "set")
                k == 2 ? cali_set_int(id, v) : cali_set_string(id, val.to_string().c_str());
            else
                cali_end(id);
        } else if (api == "n" && attrs->count(k)) {
            if (o == "begin")
                k == 2 ? cali_begin_int_byname(name.c_str(), v) : cali_begin_string_byname(name.c_str(), val.to_string().c_str());
            else if (o == "set")
                k == 2 ? cali_set_int_byname(name.c_str(), v) : cali_set_string_byname(name.c_str(), val.to_string().c_str());
            else
                cali_end_byname(name.c_str());
        } else if (api == "a" && annots->count(k)) {
            Annotation& a = *(*annots)[k];
            if (o == "begin")
                a.begin(val);
            else if (o == "set")
                a.set(val);
            else
                a.end();
        } else {
            Caliper   c;
            Attribute a = mkattr(c, k);
            if (o == "begin")
                c.begin(a, val);
            else if (o == "set")
                c.set(a, val);
            else
                c.end(a);
        }
        return 0;
    }
    if (o == "region") {
        cali_begin_region(t[2].c_str());
        cali_end_region(t[2].c_str());
        return 0;
    }
    if (o == "mkannot") {
        (*annots)[k] = new Annotation(("attr" + std::to_string(k)).c_str());
        (*annots)[k]->set(mkval(k, v));
        return 0;
    }
    if (o == "get") {
        if (!attrs->count(k))
            return 0;
        if (api == "c")
            return cali_variant_is_empty(cali_get((*attrs)[k])) ? 0 : 1;
        if (api == "p") {
            unsigned char buf[80];
            return cali_channel_pull_snapshot(v, 0, 80, buf) > 0;
        }
        if (api == "g")
            return cali_variant_is_empty(cali_channel_get(v, (*attrs)[k])) ? 0 : 1;
        if (api == "r")
            return strcmp(cali_get_current_region_or("-none-"), "-none-") != 0;
        if (api == "f")
            return cali_find_attribute(("attr" + std::to_string(k)).c_str()) == (*attrs)[k];
        Caliper   c;
        Attribute a = c.get_attribute((*attrs)[k]);
        return a && !c.get(a).empty();
    }
    if (o == "async") {
        Caliper().async_event(SnapshotView());
        return 0;
    }
    if (o == "mem") {
        static char buf[100];
        if (api == "c") {
            cali_datatracker_track(buf, "label", 100);
            cali_datatracker_untrack(buf);
        } else {
            Caliper c;
            size_t  dims[] = { 10, 10 };
            c.memory_region_begin(buf, "label", 1, 2, dims);
            c.memory_region_end(buf);
        }
        return 0;
    }
    if (o == "cpush") {
        cali_push_snapshot(0, 0, nullptr, nullptr);
        return 0;
    }
    if (o == "cflush0") {
        cali_flush(v ? CALI_FLUSH_CLEAR_BUFFERS : 0);
        return 0;
    }
    if (o == "mpool") {
        // Caliper objects for the remaining interfaces
        Caliper c;
        c.get_globals();
        c.get_all_attributes();
        std::vector<Channel> l = c.get_all_channels();
        FixedSizeSnapshotRecord<120> rec;
        c.pull_context(rec.builder());
        c.get_path_node();
        Attribute a = mkattr(c, 2);
        c.exchange(a, Variant(1));
        c.get_blackboard_entry(a);
        Variant vv(2);
        if (c.make_tree_entry(a, vv))
            return 1;
        c.make_record(1, &a, &vv, rec.builder());
        return l.size() > 0;
    }
    // operations on one channel
    if (!chans->count(k) || !(*chans)[k])
        return 0;
    Channel&  chn = (*chans)[k];
    cali_id_t id  = chn.id();
    if (o == "push") {
        if (api == "c")
            cali_channel_push_snapshot(id, 0, 0, nullptr, nullptr);
        else
            Caliper().push_snapshot(chn.body(), SnapshotView());
    } else if (o == "flush") {
        if (api == "c") {
            std::ostringstream os;
            write_report_for_query(id, "select * format expand", 0, os);
        } else
            Caliper().flush(chn.body(), SnapshotView(), [](CaliperMetadataAccessInterface&, const std::vector<Entry>&) {});
    } else if (o == "write") {
        if (api == "c")
            cali_channel_flush(id, v ? CALI_FLUSH_CLEAR_BUFFERS : 0);
        else {
            Caliper c;
            c.flush_and_write(chn.body(), SnapshotView());
            if (v)
                c.clear(&chn);
        }
    } else if (o == "clear")
        Caliper().clear(&chn);
    else if (o == "chset") {
        Caliper c;
        c.set(chn.body(), mkattr(c, 2), Variant(v));
    } else if (o == "chreg") {
        Caliper   c;
        Attribute a = mkattr(c, 1);
        c.begin(chn.body(), a, mkval(1, v));
        c.end(chn.body(), a);
    } else if (o == "chget") {
        Caliper c;
        c.get_globals(chn.body());
        return !c.get(chn.body(), mkattr(c, 2)).empty();
    }
    return 0;
}

void op(const Toks& t)
{
    int th = to_i(t[1]);
    cbs->clear();
    in_op = true;
    int r = 0;
    if (t[0] == "join") {
        auto it = workers->find(th);
        if (it != workers->end()) {
            it->second->join();
            delete it->second;
            workers->erase(it);
        }
    } else if (th == 1 || late == nullptr)
        r = do_op(t);
    else {
        Worker*& w = (*workers)[th];
        if (!w) {
            w = new Worker;
            w->run([th] { tl_thread = th; });
        }
        w->run([&] { r = do_op(t); });
    }
    in_op = false;
    J j;
    j.str("e", "op").str("op", t[0]).i("t", th).i("k", t.size() > 2 ? to_i(t[2]) : 0).i("v", t.size() > 3 ? to_i(t[3]) : 0);
    j.str("api", t[0] == "act" || t[0] == "deact" || t[0] == "del" || t[0] == "isact" ? t[3] : t.size() > 4 ? t[4] : "x");
    if (t[0] == "create")
        j.raw("cfg", J().i("rec", t[3].find("recorder") != std::string::npos).i("tr", t[3].find("trace") != std::string::npos ? 1 : t[3].find("aggregate") != std::string::npos ? 2 : 0)
                         .i("foe", t[4] == "0" ? 0 : 1).i("act", to_i(t[5])).i("hook", to_i(t[6])).done());
    int k = t.size() > 2 ? to_i(t[2]) : 0;
    j.raw("skip", k == 4 ? "true" : "false").i("first", first_channel);
    int idch = 0;
    for (auto& p : *chans)
        if (p.second && p.second.id() == (cali_id_t) (t.size() > 3 ? to_i(t[3]) : 0))
            idch = p.first;
    j.i("idch", idch);
    j.raw("known", t[0] == "get" && !attrs->count(k) ? "false" : "true");
    j.i("r", r).i("up", Caliper::is_initialized()).raw("cb", jarr(*cbs));
    put(j.done());
}

// operations in destructors of static objects of the program
struct Late {
    ~Late()
    {
        if (!late)
            return;
        std::vector<Toks> l = *late;
        late                = nullptr;
        for (const Toks& t : l)
            op(t);
    }
} late_ops;

void run(const Scenario& sc)
{
    cbs     = new std::vector<std::string>;
    chan_of = new std::map<std::string, int>;
    hooks   = new std::map<int, bool>;
    chans   = new std::map<int, Channel>;
    attrs   = new std::map<int, cali_id_t>;
    workers = new std::map<int, Worker*>;
    late    = new std::vector<Toks>;
    annots  = new std::map<int, Annotation*>;
    cali_config_allow_read_env(0);
    // reports go to a file of the scenario
    std::string fn = std::string(getenv("VF_SCRATCH")) + "/out." + sc.id;
    int         fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 1);
    services::add_service_specs(vf_services);
    bool is_late = false;
    for (const Toks& t : sc.lines) {
        if (t[0] == "late")
            is_late = true;
        else if (is_late)
            late->push_back(t);
        else
            op(t);
    }
    put(J().str("e", "exit").done());
}

std::map<std::string, std::string> fields(const std::string& line)
{
    std::map<std::string, std::string> m;
    std::istringstream                 is(line);
    std::string                        f;
    while (std::getline(is, f, ',')) {
        size_t p = f.find('=');
        if (p != std::string::npos)
            m[f.substr(0, p)] = f.substr(p + 1);
    }
    return m;
}

//   What the recorder wrote: for each stream, the channel it says it comes from and the number of snapshots
std::string after(const Scenario& sc)
{
    std::ifstream is(std::string(getenv("VF_SCRATCH")) + "/out." + sc.id);
    std::string   line;
    int           n = 0;
    J             w('[');
    std::map<std::string, std::pair<std::string, std::string>> nodes;
    while (std::getline(is, line)) {
        auto f = fields(line);
        if (f["__rec"] == "node")
            nodes[f["id"]] = { f["data"], f["parent"] };
        else if (f["__rec"] == "ctx")
            ++n;
        else if (f["__rec"] == "globals") {
            int                k = 0;
            std::istringstream refs(f["ref"]);
            std::string        r;
            while (std::getline(refs, r, '='))
                for (; nodes.count(r); r = nodes[r].second)
                    if (nodes[r].first.compare(0, 3, "chn") == 0)
                        k = to_i(nodes[r].first.substr(3));
            w.el(J('[').el(k).el(n).done(']'));
            n = 0;
        }
    }
    return J().str("e", "out").raw("w", w.done(']')).i("rest", n).done();
}

} // namespace

int main(int argc, char** argv)
{
    return vf::run_all(argc, argv, run, 60, true, after);
}
