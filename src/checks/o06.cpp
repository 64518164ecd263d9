// O06: Matlab export of every small field, read back.
#include "sops.h"
#include <spatialops/WriteMatlab.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace sops;
namespace {
// parse the generated function: the loader's name, then the vector's entries
struct Parsed { bool ok; std::string why; std::vector<long double> v; };
Parsed parse(const std::string& text, const std::string& name) {
  Parsed p; p.ok = false; std::istringstream in(text); std::string line, flat; bool fn = false;
  while (std::getline(in, line)) { size_t h = line.find('%'); if (h != std::string::npos) line.resize(h); if (!fn) { std::string t; for (char ch : line) if (!isspace((unsigned char)ch)) t += ch; if (t.empty()) continue; if (t != "functionx=" + name + "()" && t != "functionx=" + name) { p.why = "first line is '" + line + "'"; return p; } fn = true; continue; } size_t e = line.find("..."); if (e != std::string::npos) { line.resize(e); flat += line + " "; } else flat += line + "\n"; }
  if (!fn) { p.why = "no function line"; return p; }
  size_t a = flat.find('['), b = flat.find(']'), eq = flat.find('='); if (a == std::string::npos || b == std::string::npos || eq == std::string::npos || eq > a || b < a) { p.why = "no vector"; return p; } { std::string lhs; for (char ch : flat.substr(0, eq)) if (!isspace((unsigned char)ch)) lhs += ch; if (lhs != "x") { p.why = "assigns '" + lhs + "'"; return p; } }
  if (flat.find('[', a + 1) != std::string::npos || flat.find(']', b + 1) != std::string::npos) { p.why = "more than one vector"; return p; }
  std::string body = flat.substr(a + 1, b - a - 1); for (char& ch : body) if (ch == ',' || ch == ';') ch = ' '; std::istringstream w(body); std::string tok; while (w >> tok) { char* e; long double d = strtold(tok.c_str(), &e); if (*e) { p.why = "entry '" + tok + "'"; return p; } p.v.push_back(d); }
  p.ok = true; return p;
}
struct Scratch { char d[32]; std::string file; Scratch(const std::string& f) : file(f) { strcpy(d, "/tmp/o06_XXXXXX"); if (!mkdtemp(d) || chdir(d)) abort(); } ~Scratch() { unlink(file.c_str()); if (chdir("/")) abort(); rmdir(d); } };
// run one export in a scratch directory
template <class F> void exportOne(mc::Ctx& c, Fld<F>& a, bool ghosts, int how, const std::string& prefix, bool stale) {
  std::string fn = "load_" + prefix + ".m"; Scratch scratch(fn); if (stale) { std::ofstream o(fn.c_str()); for (int i = 0; i < 400; ++i) o << "old contents [ 1, 2 ]\n"; }
  auto m0 = a.mem; const F& f = a.f(); if (how == 0) SpatialOps::write_matlab(f, prefix, ghosts); else SpatialOps::write_matlab(f, prefix); c.step();
  std::ifstream in(fn.c_str()); std::stringstream s; bool there = (bool)in; s << in.rdbuf(); in.close(); c.check(there, "file", "no file %s written", fn.c_str()); c.check(a.mem == m0, "field", "field modified");
  Parsed p = parse(s.str(), "load_" + prefix); c.check(p.ok, "format", "%s: %s", fn.c_str(), p.why.c_str()); Box b = ghosts ? a.whole() : a.interior(); std::vector<double> e; cells(b, [&](int i, int j, int k) { e.push_back(a.at(i, j, k)); });
  c.check(p.v.size() == e.size(), "count", "%zu values written, %zu requested", p.v.size(), e.size()); for (size_t i = 0; i < e.size(); ++i) c.check(p.v[i] == e[i] || std::fabs(p.v[i] - (long double)e[i]) <= 1e-14L * std::fabs((long double)e[i]), "value", "entry %zu is %.17Lg, expected %.17g", i, p.v[i], e[i]);
}
template <class F> void shapes(mc::Ctx& c) {
  IntVec n, bc; int m = c.bound(3, 4); for (int d = 0; d < 3; ++d) { static const char* l[] = {"nx", "ny", "nz"}; n[d] = c.range(l[d], 1, m); } int b = c.pick("bc", 8); for (int d = 0; d < 3; ++d) { bc[d] = b >> d & 1; if (bc[d]) c.assume(n[d] > 1); }
  int g = c.pick("ghosts", 4); GhostData gd = g == 0 ? GhostData(0) : g == 1 ? GhostData(1) : g == 2 ? GhostData(1, 0, 0, 2, 1, 1) : GhostData(0, 1, 2, 0, 0, 1); Fld<F> a(n, bc, gd); a.fill(5); bool ghosts = c.flip("include ghosts"); int how = ghosts ? 0 : c.pick("default", 2); exportOne(c, a, ghosts, how, "field", c.flip("stale file"));
}
// values whose digits matter, at every position of a small field
static const double V[] = {0, -0.0, 1.0 / 3, -2.0 / 3, 1e-300, 4.9e-324, 1.7976931348623157e308, 123456789.123456789, 1.0000000000000002, 0.1, -9.87654321098765e-12, 99999999999999.9, 2.2250738585072014e-308, 6.02214076e23, 9.9999999999999995e15};
void values(mc::Ctx& c) {
  Fld<SVolField> a(IntVec(c.range("n", 1, 3), 1, 1), IntVec(0, 0, 0), GhostData(1)); a.fill(2); for (size_t i = 0; i < a.size(); ++i) if (i < 3 || c.thorough()) a.data()[i] = V[c.pick("value", 15)]; else a.data()[i] = V[(i * 7) % 15]; bool gh = c.flip("include ghosts"); exportOne(c, a, gh, 0, c.flip("name") ? "a" : "My_field2", false);
}
}
MC_REGISTER(shapes_svol, shapes<SVolField>) MC_REGISTER(shapes_ssurfx, shapes<SSurfXField>) MC_REGISTER(shapes_zvol, shapes<ZVolField>) MC_REGISTER(values, values)
