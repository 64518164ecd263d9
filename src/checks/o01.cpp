// O01: every history of register / retrieve / copy / assign / empty / destroy on operator databases against a model of shared stores.
#include "mc.h"
#include <spatialops/OperatorDatabase.h>
#include <map>
#include <set>
#include <memory>
using namespace SpatialOps;
namespace {
std::map<const void*, int> alive; std::map<const void*, int> freed;   // operators now alive, destruction counts
template <int K> struct Op { typedef int Assembler; int tag; explicit Op(int t) : tag(t) { alive[this] = t; } ~Op() { alive.erase(this); } };
struct Store { std::map<int, std::pair<const void*, int> > ops; };            // id -> (object, tag)
struct Db { bool on; std::shared_ptr<Store> st[3]; };
template <int K> void look(mc::Ctx& c, const OperatorDatabase& d, const Db& m) {
  std::set<int> ids; for (int i = -2; i < 2; ++i) ids.insert(i); ids.insert(1 << 20); if (m.st[K]) for (auto& e : m.st[K]->ops) { ids.insert(e.first); ids.insert(e.first + 1); ids.insert(-e.first); }
  for (int id : ids) {
    const Op<K>* got = nullptr; bool thrown = false; try { got = d.template retrieve_operator<Op<K> >(id); } catch (std::exception&) { thrown = true; } c.step();
    const void* want = nullptr; int tag = 0; if (m.st[K]) { auto& o = m.st[K]->ops; if (id == -1) { if (o.size() == 1) { want = o.begin()->second.first; tag = o.begin()->second.second; } } else if (o.count(id)) { want = o[id].first; tag = o[id].second; } }
    c.check(thrown == !want, "request", "type %d id %d %s with %d registered", K, id, thrown ? "rejected" : "answered", m.st[K] ? (int)m.st[K]->ops.size() : 0);
    if (want) c.check(got == want && got->tag == tag, "retrieve", "type %d id %d returned another operator (tag %d, expected %d)", K, id, got ? got->tag : -1, tag);
  }
  if (m.st[K] && m.st[K]->ops.size() == 1) c.check(d.template retrieve_operator<Op<K> >() == m.st[K]->ops.begin()->second.first, "retrieve", "retrieval without id of the only operator of type %d", K);
}
template <int K> int reg(OperatorDatabase& d, int tag, bool assembler, const void*& obj, mc::Ctx& c) {
  if (assembler) { std::set<const void*> before; for (auto& a : alive) before.insert(a.first); int id = d.template register_new_operator<Op<K> >(typename Op<K>::Assembler(tag)); obj = nullptr; for (auto& a : alive) if (!before.count(a.first)) obj = a.first; c.check(obj, "register", "registering through an assembler built no operator"); return id; }
  Op<K>* o = new Op<K>(tag); obj = o; return d.register_new_operator(o);
}
void histories(mc::Ctx& c) {
  alive.clear(); { std::unique_ptr<OperatorDatabase> db[2]; Db m[2] = {{false, {}}, {false, {}}}; db[0].reset(new OperatorDatabase()); m[0].on = true; int depth = c.range("length", 1, c.bound(5, 6));
  for (int s = 0; s < depth; ++s) {
    // operations available in this state
    std::vector<int> ops; for (int x = 0; x < 2; ++x) if (m[x].on) { for (int t = 0; t < 3; ++t) ops.push_back(10 * x + t); ops.push_back(10 * x + 3); ops.push_back(10 * x + 4); ops.push_back(10 * x + 5); ops.push_back(10 * x + 6); } else { ops.push_back(10 * x + 7); ops.push_back(10 * x + 8); }
    int o = ops[c.pick("op", ops.size())], x = o / 10; o %= 10;
    if (o < 3) {
      const void* obj = nullptr; bool as = s % 2; int id = o == 0 ? reg<0>(*db[x], s, as, obj, c) : o == 1 ? reg<1>(*db[x], s, as, obj, c) : reg<2>(*db[x], s, as, obj, c); if (!m[x].st[o]) m[x].st[o].reset(new Store());
      c.check(!m[x].st[o]->ops.count(id), "id", "type %d: id %d given twice", o, id); m[x].st[o]->ops[id] = {obj, s}; c.note("db%d register type %d -> id %d", x, o, id);
    } else if (o == 3) { db[x]->empty_database(); for (auto& p : m[x].st) p.reset(); c.note("db%d empty", x); }
    else if (o == 4) { db[x].reset(); m[x] = Db{false, {}}; c.note("db%d destroy", x); }
    else if (o == 5) { if (m[1 - x].on) { *db[x] = *db[1 - x]; m[x] = m[1 - x]; } else { *db[x] = *db[x]; } c.note("db%d assign", x); }
    else if (o == 6) { OperatorDatabase tmp(*db[x]); const void* obj = nullptr; if (m[x].st[0]) { int id = reg<0>(tmp, s, false, obj, c); c.check(!m[x].st[0]->ops.count(id), "id", "id %d given twice through a copy", id); m[x].st[0]->ops[id] = {obj, s}; } c.note("db%d temporary copy", x); }
    else if (o == 7) { db[x].reset(new OperatorDatabase()); m[x].on = true; c.note("db%d new", x); }
    else { if (m[1 - x].on) { db[x].reset(new OperatorDatabase(*db[1 - x])); m[x] = m[1 - x]; } else { db[x].reset(new OperatorDatabase()); m[x].on = true; } c.note("db%d copy", x); }
    c.step(); std::set<const void*> want; for (auto& d : m) if (d.on) for (auto& p : d.st) if (p) for (auto& e : p->ops) want.insert(e.second.first);
    for (auto* p : want) c.check(alive.count(p), "destroyed", "a registered operator was destroyed too early");
    c.check(alive.size() == want.size(), "alive", "%zu operators alive, %zu registered", alive.size(), want.size());
    for (int y = 0; y < 2; ++y) if (m[y].on) {
      if (s + 1 < depth) { for (int id : {-1, 77}) try { db[y]->retrieve_operator<Op<0> >(id); } catch (std::exception&) {} continue; }   // a shorter history's end checks this state in full
      look<0>(c, *db[y], m[y]); look<1>(c, *db[y], m[y]); look<2>(c, *db[y], m[y]); }
  } }
  c.check(alive.empty(), "alive", "%zu operators survive every database", alive.size());
}
// many operators of one type, interleaved with another
void many(mc::Ctx& c) {
  alive.clear(); { OperatorDatabase d; Db m = {true, {}}; int n = c.range("count", 1, c.bound(24, 80)), other = c.range("stride", 1, 4);
  for (int i = 0; i < n; ++i) { int t = i % other ? 0 : 1; const void* obj; int id = t ? reg<1>(d, i, i & 1, obj, c) : reg<0>(d, i, i & 1, obj, c); if (!m.st[t]) m.st[t].reset(new Store()); c.check(!m.st[t]->ops.count(id), "id", "id %d given twice", id); m.st[t]->ops[id] = {obj, i}; }
  look<0>(c, d, m); look<1>(c, d, m); look<2>(c, d, m); } c.check(alive.empty(), "alive", "%zu operators survive the database", alive.size());
}
}
MC_REGISTER(histories, histories) MC_REGISTER(many, many)
