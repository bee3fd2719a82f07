// The same programs on the real MPI/HDF5 (-DREAL) and on the simulated ones used by the checks; prints what every
// process observed and what the files contain.  tools/conf/run.sh compares the two outputs.
#include "grid.hpp"
#include "grid/mpisubdivision.hpp"
#include "diagnostic/hdfdiagnostic.hpp"
#include "util/databuffer.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <list>
#include <sstream>
#include <vector>
#ifndef REAL
#include "fakeh5.hpp"
#include "fakempi.hpp"
#include "mc.hpp"
#endif
using namespace schnek;
template<size_t R> using Idx = Array<int, R>;
template<class G> static void show(std::ostream &o, const char *what, G &g) { o << what << " "; for (size_t d = 0; d < (size_t)G::Rank; ++d) o << g.getLo(d) << ":" << g.getHi(d) << " "; for (auto &v : g) o << " " << v; o << "\n"; }
// ---- message passing --------------------------------------------------------------------------------
template<class T> static void exchange2(std::ostream &o, int r, Idx<2> size, int gh) {
  typedef Grid<T, 2> G; MPICartSubdivision<G> s; s.init(Idx<2>(-1, 2), Idx<2>(size[0] - 2, size[1] + 1), gh);
  G g(s.getLo(), s.getHi()); DomainSubdivision<G> &b = s; int k = 0; auto paint = [&] { for (auto &v : g) v = T((s.getUniqueId() * 37 + k++) % 120); };
  o << "sub " << s.getUniqueId() << " " << s.procCount() << " " << s.master() << " " << s.getInnerLo()[0] << " " << s.getInnerHi()[0] << " " << s.getInnerLo()[1] << " " << s.getInnerHi()[1] << "\n";
  paint(); s.exchange(g, 0); show(o, "ex0", g); paint(); s.exchange(g, 1); show(o, "ex1", g); paint(); b.exchange(g); show(o, "ex", g);
  paint(); s.accumulate(g, 0); show(o, "ac0", g); paint(); s.accumulate(g, 1); show(o, "ac1", g); paint(); b.accumulate(g); show(o, "ac", g);
  o << "red " << s.sumReduce(1.5 * s.getUniqueId()) << " " << s.avgReduce(2.0 * s.getUniqueId() - 3) << " " << s.maxReduce(double(7 - s.getUniqueId())) << " " << s.minReduce(double(7 - s.getUniqueId())) << " " << s.sumReduce(s.getUniqueId()) << " " << s.avgReduce(s.getUniqueId() * 3) << " " << s.maxReduce(s.getUniqueId() - 9) << " " << s.minReduce(s.getUniqueId() - 9) << "\n";
  for (int d = 0; d < 2; ++d) for (int q = -1; q <= 1; q += 2) { DataBuffer<double> in, out; std::vector<double> v; for (int i = 0; i < (s.getUniqueId() * 2 + d) % 4; ++i) v.push_back(s.getUniqueId() + i * .25); std::vector<double *> p; for (auto &x : v) p.push_back(&x); in.makeBuffer(p); s.exchangeData(d, q, in.getBuffer(), out.getBuffer()); o << "data " << d << " " << q << ":"; for (auto it = out.begin(); it != out.end(); ++it) o << " " << *it; o << "\n"; }
}
// ---- HDF5 histories ----------------------------------------------------------------------------------
struct Hist { std::string file; };
template<class F, size_t R> static void fill(F &g, const Idx<R> &lo, const Idx<R> &hi, int set) { for (auto &v : g) v = -7; Range<int, R> rg(lo, hi); for (auto p = rg.begin(); p != rg.end(); ++p) { double x = set * 100; for (size_t d = 0; d < R; ++d) x = x * 5 + (*p)[d] + 3; g[*p] = x; } }
template<class T> static void hdf(std::ostream &o, int r, int n, const std::string &file, int mode) {
  typedef Grid<T, 2> G; GridContainer<G> c; c.global_min = Idx<2>(-1, 2); c.global_max = Idx<2>(2 * n - 2, 4); Idx<2> lo(2 * r - 1, 2), hi(2 * r, 4); c.local_min = lo; c.local_max = hi; c.grid.resize(Idx<2>(lo[0] - (mode & 1), lo[1] - (mode & 1)), Idx<2>(hi[0] + (mode & 1), hi[1] + (mode & 1)));
  HdfOStream out; out.open(file.c_str()); if (mode & 2) out.setBlockName("E"); o << "good " << out.good() << "\n";
  for (int s = 0; s < 2; ++s) { fill<G, 2>(c.grid, lo, hi, s + 1); auto at = std::make_shared<HdfAttributes>(); double a = 2.5 + s; int b[3] = {s, 2, 3}; if (mode & 4) { at->set("amount", a); at->set("shape", (const int *)b, 3); } out.setAttributes(at); out.writeGrid(c); }
  out.close();
  HdfIStream in; in.open(file.c_str()); if (mode & 2) in.setBlockName("E"); for (int s = 0; s < 2; ++s) { for (auto &v : c.grid) v = -9; in.readGrid(c); show(o, "read", c.grid); } in.close();
}
static void active(std::ostream &o, int r, int n, const std::string &file) {
  HdfOStream out; GridContainer<Grid<double, 1>> c; for (int mask = 1; mask < (1 << n); ++mask) { int me = 0, all = 0; for (int q = 0; q < n; ++q) if (mask >> q & 1) { if (q < r) ++me; ++all; } out.setActive(mask >> r & 1); out.open((file + std::to_string(mask) + ".h5").c_str());
    c.global_min = Idx<1>(0); c.global_max = Idx<1>(2 * all - 1); c.local_min = Idx<1>(2 * me); c.local_max = Idx<1>(2 * me + 1); c.grid.resize(c.local_min, c.local_max); c.grid = double(mask * 10 + r); out.writeGrid(c); if (mask % 2) out.close(); }
}
static void body(int r, int n, std::ostream &o) {
  static const int S[][2] = {{4, 4}, {5, 7}, {6, 4}}; for (auto &s : S) for (int gh = 1; gh <= 2; ++gh) { if (s[0] / n < gh && s[1] / n < gh) continue; o << "size " << s[0] << "x" << s[1] << " ghost " << gh << "\n"; exchange2<double>(o, r, Idx<2>(s[0] * 2, s[1] * 2), gh); exchange2<int>(o, r, Idx<2>(s[0] * 2, s[1] * 2), gh); }
  for (int mode = 0; mode < 8; ++mode) { hdf<double>(o, r, n, "d" + std::to_string(mode) + ".h5", mode); hdf<int>(o, r, n, "i" + std::to_string(mode) + ".h5", mode); hdf<float>(o, r, n, "f" + std::to_string(mode) + ".h5", mode); }
  active(o, r, n, "act");
}
#ifdef REAL
static std::string typeName(hid_t t) { return H5Tequal(t, H5T_NATIVE_INT) ? "int" : H5Tequal(t, H5T_NATIVE_FLOAT) ? "float" : H5Tequal(t, H5T_NATIVE_DOUBLE) ? "double" : "?"; }
static std::vector<std::string> names; static herr_t collect(hid_t, const char *n, const H5L_info_t *, void *) { names.push_back(n); return 0; }
static std::vector<std::string> anames; static herr_t acollect(hid_t, const char *n, const H5A_info_t *, void *) { anames.push_back(n); return 0; }
static void dump(std::ostream &o, const std::string &f) {
  hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (h < 0) { o << f << " missing\n"; return; } names.clear(); H5Literate(h, H5_INDEX_NAME, H5_ITER_INC, 0, collect, 0);
  for (auto &n : names) { hid_t d = H5Dopen2(h, n.c_str(), H5P_DEFAULT), s = H5Dget_space(d), t = H5Dget_type(d); int R = H5Sget_simple_extent_ndims(s); std::vector<hsize_t> dim(R); H5Sget_simple_extent_dims(s, dim.data(), 0); size_t N = 1; o << f << " " << n << " " << typeName(t); for (auto x : dim) { o << " " << x; N *= x; } std::vector<double> v(N); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); o << " :"; for (auto x : v) o << " " << x; o << "\n";
    anames.clear(); H5Aiterate2(d, H5_INDEX_NAME, H5_ITER_INC, 0, acollect, 0); for (auto &a : anames) { hid_t A = H5Aopen(d, a.c_str(), H5P_DEFAULT), as = H5Aget_space(A), at = H5Aget_type(A); size_t M = H5Sget_simple_extent_npoints(as); std::vector<double> w(M); H5Aread(A, H5T_NATIVE_DOUBLE, w.data()); o << "  " << a << " " << typeName(at); for (auto x : w) o << " " << x; o << "\n"; H5Aclose(A); } H5Dclose(d); }
  H5Fclose(h);
}
int main(int argc, char **argv) {
  MPI_Init(&argc, &argv); int r, n; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_size(MPI_COMM_WORLD, &n); { std::ofstream o(std::string("log") + std::to_string(r)); body(r, n, o); } MPI_Barrier(MPI_COMM_WORLD);
  if (r == 0) { std::ofstream o("files"); for (int i = 0; i < 8; ++i) for (const char *p : {"d", "i", "f"}) dump(o, p + std::to_string(i) + ".h5"); for (int m = 1; m < 1 << n; ++m) dump(o, "act" + std::to_string(m) + ".h5"); } MPI_Finalize();
}
#else
void mc_register() {
  mc::add("conf", [] {
    static const fakempi::Policy P[] = {fakempi::RoundRobin, fakempi::RunToBlock, fakempi::RunToBlockReverse}; int n = atoi(getenv("CONF_N")); int pol = mc::choose(3); fakempi::Options op; op.ranks = n; op.policy = P[pol]; op.rendezvous = mc::flip(); fakeh5::reset(); std::vector<std::ostringstream> o(n);
    fakempi::run(op, [&](int r) { body(r, n, o[r]); }); std::string dir = std::string(getenv("CONF_OUT")) + "/" + std::to_string(pol) + (op.rendezvous ? "s" : "b"); system(("mkdir -p " + dir).c_str());
    for (int r = 0; r < n; ++r) std::ofstream(dir + "/log" + std::to_string(r)) << o[r].str(); std::ofstream f(dir + "/files");
    auto ty = [](int t) { return t == (int)H5T_NATIVE_INT ? "int" : t == (int)H5T_NATIVE_FLOAT ? "float" : "double"; };
    auto dump = [&](const std::string &n) { if (!fakeh5::disk.count(n)) { f << n << " missing\n"; return; } for (auto &s : fakeh5::disk[n].sets) { f << n << " " << s.first << " " << ty(s.second.type); for (auto d : s.second.dims) f << " " << d; f << " :"; for (auto v : s.second.data) f << " " << v; f << "\n"; for (auto &a : s.second.attrs) { f << "  " << a.first << " " << ty(a.second.type); for (auto v : a.second.data) f << " " << v; f << "\n"; } } };
    for (int i = 0; i < 8; ++i) for (const char *p : {"d", "i", "f"}) dump(p + std::to_string(i) + ".h5"); for (int m = 1; m < 1 << n; ++m) dump("act" + std::to_string(m) + ".h5");
  });
}
#endif
