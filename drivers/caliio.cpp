// Writing, reading and merging .cali streams.
//   attr <key> <name> <type> <props> {<metakey> <value>}     attribute in the source
//   node <key> <parentkey|-> <attrkey> <value>                context tree node
//   rec {n <nodekey> | a <attrkey> <value>}...                write one record
//   glob <attrkey> <value>                                    set a global
//   wr <k>                                                    finish: write globals, keep the text as stream k
//   text <k> <text>                                           stream given as text
//   read <k>... ; pread <k>...                                read the streams into a new database, one by one / in parallel
//   rewrite <from> <k>                                        write the database that stream <from> was read into as stream k
#include "caliio.h"
#include "caliper/Caliper.h"
#include "caliper/cali.h"
#include "caliper/common/OutputStream.h"
#include "caliper/reader/CaliReader.h"
#include "caliper/reader/CaliWriter.h"
#include "caliper/reader/CaliperMetadataDB.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QueryProcessor.h"
#include "../src/common/RuntimeConfig.h"
#include <atomic>
using namespace vf;

struct Src {
    CaliperMetadataAccessInterface*   db;
    Values                            vals;
    std::map<std::string, Attribute>  attrs;
    std::map<std::string, Node*>      nodes;
    std::vector<std::vector<Entry>>   recs;
};

static void log_src(const CaliperMetadataAccessInterface& db, const std::string& k, const std::vector<std::vector<Entry>>& recs,
                    const std::vector<Entry>& globals)
{
    for (const auto& r : recs)
        emit(J().str("e", "src").str("k", k).raw("r", rectext(db, r)));
    emit(J().str("e", "srcg").str("k", k).raw("r", rectext(db, globals)));
}

static void log_db(CaliperMetadataDB& db, const std::vector<std::string>& ks, const std::vector<Entry>& globals, bool par)
{
    J nodes('['), names('[');
    for (cali_id_t i = 12; db.node(i); ++i)
        nodes.el(J::q(content(db, db.node(i))));
    bool ok = true;
    // every attribute can be looked up by its name and by its id
    for (cali_id_t i = 8; db.node(i); ++i) {
        if (db.node(i)->attribute() != Attribute::NAME_ATTR_ID)
            continue;
        Attribute a = db.get_attribute(i);
        Attribute b = db.get_attribute(a.name());
        if (i != 9 && i != 10 && (a.id() != i || !b || b.name() != a.name()))
            ok = false;
    }
    for (const Attribute& a : db.get_all_attributes())
        names.el(J::q(pct(a.name())));
    J q('[');
    for (auto& k : ks)
        q.el(J::q(k));
    emit(J().str("e", "db").raw("ks", q.done(']')).raw("n", nodes.done(']')).raw("a", names.done(']')).i("ok", ok).i("par", par).raw("g", rectext(db, globals)));
}

static void run(const Scenario& sc)
{
    std::map<std::string, std::string> texts;
    CaliperMetadataDB                  srcdb;
    Src                                s;
    s.db = &srcdb;
    std::ostringstream os;
    OutputStream       ostr;
    ostr.set_stream(&os);
    std::unique_ptr<CaliWriter> w(new CaliWriter(ostr));
    std::unique_ptr<CaliperMetadataDB> last;
    std::vector<std::vector<Entry>>    lastrecs;
    std::unique_ptr<Caliper>  c;
    Channel channel;
    auto logtext = [&](const std::string& k, const std::string& kind) {
        emit(J().str("e", "text").str("k", k).str("kind", kind).str("t", texts[k]));
    };
    for (const Toks& t : sc.lines) {
        const std::string& o = t[0];
        if (o == "runtime") {
            // the source is the Caliper runtime
            c.reset(new Caliper);
            s.db = c.get();
            RuntimeConfig cfg;
            cfg.allow_read_env(false);
            std::map<std::string, std::string> m;
            m["CALI_SERVICES_ENABLE"] = t[1];
            m["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
            cfg.import(m);
            channel = c->create_channel("ch", cfg);
            c->activate_channel(channel);
        } else if (o == "attr") {
            std::vector<Attribute> ma;
            std::vector<Variant>   mv;
            for (size_t i = 5; i + 1 < t.size(); i += 2) {
                ma.push_back(s.attrs.at(t[i]));
                mv.push_back(s.vals.make(t[i + 1]));
            }
            s.attrs[t[1]] = s.db->create_attribute(t[2], cali_string2type(t[3].c_str()), to_i(t[4]), ma.size(), ma.data(), mv.data());
        } else if (o == "node") {
            Node*     parent = t[2] == "-" ? nullptr : s.nodes.at(t[2]);
            Attribute a      = s.attrs.at(t[3]);
            Variant   v      = s.vals.make(t[4]);
            s.nodes[t[1]]    = c ? c->make_tree_entry(a, v, parent) : srcdb.make_tree_entry(1, &a, &v, parent);
        } else if (o == "rec") {
            std::vector<Entry> r;
            for (size_t i = 1; i < t.size();) {
                if (t[i] == "n") {
                    r.push_back(Entry(s.nodes.at(t[i + 1])));
                    i += 2;
                } else {
                    r.push_back(Entry(s.attrs.at(t[i + 1]), s.vals.make(t[i + 2])));
                    i += 3;
                }
            }
            s.recs.push_back(r);
            w->write_snapshot(*s.db, r);
        } else if (o == "beg") {
            c->begin(s.attrs.at(t[1]), s.vals.make(t[2]));
        } else if (o == "end") {
            c->end(s.attrs.at(t[1]));
        } else if (o == "set") {
            c->set(s.attrs.at(t[1]), s.vals.make(t[2]));
        } else if (o == "push") {
            c->push_snapshot(channel.body(), SnapshotView());
        } else if (o == "flush") {
            // all records of the channel
            c->flush(channel.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
                s.recs.push_back(rec);
                w->write_snapshot(db, rec);
            });
        } else if (o == "recorder") {
            // the recorder service writes the file
            std::string fn = std::string(getenv("VF_SCRATCH") ? getenv("VF_SCRATCH") : ".") + "/rec" + std::to_string(getpid()) + ".cali";
            c->flush(channel.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { s.recs.push_back(rec); });
            {
                RuntimeConfig cfg;
                cfg.allow_read_env(false);
                std::map<std::string, std::string> m;
                m["CALI_SERVICES_ENABLE"]   = "recorder";
                m["CALI_RECORDER_FILENAME"] = fn;
                m["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
                cfg.import(m);
                Channel rch = c->create_channel("rec", cfg);
                Channel ch = channel;
                rch.events().flush_evt.connect([ch](Caliper* c, SnapshotView info, SnapshotFlushFn fn) {
                    c->flush(const_cast<Channel&>(ch).body(), info, fn);
                });
                c->flush_and_write(rch.body(), SnapshotView());
                log_src(*s.db, t[1], s.recs, c->get_globals(rch.body()));
            }
            std::ifstream      is(fn);
            std::ostringstream tmp;
            tmp << is.rdbuf();
            unlink(fn.c_str());
            texts[t[1]] = tmp.str();
            logtext(t[1], "written");
            s.recs.clear();
        } else if (o == "glob") {
            if (c)
                c->set(s.attrs.at(t[1]), s.vals.make(t[2]));
            else {
                Variant v = s.vals.make(t[2]);
                srcdb.set_global(s.attrs.at(t[1]), v);
            }
        } else if (o == "wr") {
            std::vector<Entry> g = c ? c->get_globals(channel.body()) : srcdb.get_globals();
            w->write_globals(*s.db, g);
            texts[t[1]] = os.str();
            log_src(*s.db, t[1], s.recs, g);
            logtext(t[1], "written");
            os.str("");
            s.recs.clear();
            w.reset(new CaliWriter(ostr));
        } else if (o == "text") {
            texts[t[1]] = t.size() > 3 ? t[3] : std::string();
            logtext(t[1], t[2]);
        } else if (o == "read" || o == "pread") {
            last.reset(new CaliperMetadataDB);
            lastrecs.clear();
            std::vector<std::string> ks(t.begin() + 1, t.end());
            std::vector<std::vector<std::vector<Entry>>> out(ks.size());
            std::vector<int>                             err(ks.size());
            auto one = [&](size_t i) {
                CaliReader         reader;
                std::istringstream is(texts.at(ks[i]));
                reader.read(is, *last, [](CaliperMetadataAccessInterface&, const Node*) {},
                            [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { out[i].push_back(rec); });
                err[i] = reader.error();
            };
            if (o == "read")
                for (size_t i = 0; i < ks.size(); ++i)
                    one(i);
            else {
                std::atomic<int>         ready { 0 };
                std::vector<std::thread> th;
                for (size_t i = 0; i < ks.size(); ++i)
                    th.emplace_back([&, i] {
                        ++ready;
                        while (ready < (int) ks.size())
                            ;
                        one(i);
                    });
                for (auto& x : th)
                    x.join();
            }
            for (size_t i = 0; i < ks.size(); ++i) {
                emit(J().str("e", "begin").str("k", ks[i]));
                for (const auto& r : out[i]) {
                    emit(J().str("e", "got").raw("r", rectext(*last, r)));
                    lastrecs.push_back(r);
                }
                emit(J().str("e", "done").i("err", err[i]));
            }
            log_db(*last, ks, last->get_globals(), o == "pread");
        } else if (o == "rewrite") {
            std::ostringstream os2;
            OutputStream       o2;
            o2.set_stream(&os2);
            CaliWriter w2(o2);
            for (const auto& r : lastrecs)
                w2.write_snapshot(*last, r);
            w2.write_globals(*last, last->get_globals());
            texts[t[1]] = os2.str();
            log_src(*last, t[1], lastrecs, last->get_globals());
            logtext(t[1], "written");
        } else if (o == "merge") {
            // copy the records into another database
            auto db2 = std::make_unique<CaliperMetadataDB>();
            if (t.size() > 1) {
                // ... that has entries of its own
                CaliReader         reader;
                std::istringstream is(texts.at(t[1]));
                reader.read(is, *db2, [](CaliperMetadataAccessInterface&, const Node*) {},
                            [](CaliperMetadataAccessInterface&, const std::vector<Entry>&) {});
            }
            emit(J().str("e", "mbegin"));
            for (const auto& r : lastrecs) {
                auto m = db2->merge_snapshot(*last, r);
                emit(J().str("e", "merged").raw("o", rectext(*last, r)).raw("r", rectext(*db2, m)));
            }
        } else if (o == "query") {
            // run the records through query processing; only crashes matter here
            CalQLParser p(t[1].c_str());
            std::ostringstream os2;
            OutputStream       o2;
            o2.set_stream(&os2);
            if (!p.error()) {
                QueryProcessor q(p.spec(), o2);
                for (const auto& r : lastrecs)
                    q.process_record(*last, r);
                q.flush(*last);
            }
        } else {
            fprintf(stderr, "unknown op %s\n", o.c_str());
            _exit(96);
        }
    }
}

int main(int argc, char** argv) { return run_all(argc, argv, run, 60); }
