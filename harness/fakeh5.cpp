#include "fakeh5.hpp"
#include "fakempi.hpp"
#include "hdf5.h"
#include <memory>
#include <sstream>
using namespace fakeh5;
namespace fakempi { void collectiveCall(MPI_Comm c, const std::string &what, std::function<void()> complete); }
std::map<std::string, File> fakeh5::disk;
namespace {
struct Obj { enum Kind { FAPL, DXPL, PLIST, FILE_, DSET, SPACE, ATTR } kind; int rank = -1; MPI_Comm comm = nullptr; bool coll = false; std::string file, name, attr; bool writable = false; std::vector<hsize_t> dims, start, count; bool all = true; std::vector<double> data; };
std::map<hid_t, Obj> objs; hid_t next = 10000;
std::map<std::string, int> outcome;     // result of the last collective decision per file and call
Obj *get(hid_t h, Obj::Kind k, const char *f) { auto it = objs.find(h); if (it == objs.end()) return nullptr; if (it->second.kind != k) return nullptr; if (it->second.rank != fakempi::me()) mc::fail("hdf5-misuse", std::string(f) + " on a handle of another process"); return &it->second; }
hid_t add(Obj o) { o.rank = fakempi::me(); hid_t h = next++; objs[h] = o; return h; }
size_t tsize(hid_t t) { return t == H5T_NATIVE_INT ? sizeof(int) : t == H5T_NATIVE_FLOAT ? sizeof(float) : t == H5T_NATIVE_DOUBLE ? sizeof(double) : 0; }
double load(hid_t t, const void *p, size_t i) { return t == H5T_NATIVE_INT ? ((const int *)p)[i] : t == H5T_NATIVE_FLOAT ? ((const float *)p)[i] : ((const double *)p)[i]; }
double asType(hid_t t, double v) { return t == H5T_NATIVE_INT ? (double)(int)v : t == H5T_NATIVE_FLOAT ? (double)(float)v : v; }
void store(hid_t t, void *p, size_t i, double v) { if (t == H5T_NATIVE_INT) ((int *)p)[i] = (int)v; else if (t == H5T_NATIVE_FLOAT) ((float *)p)[i] = (float)v; else ((double *)p)[i] = v; }
std::string show(const std::vector<hsize_t> &d) { std::ostringstream o; for (auto x : d) o << x << ","; return o.str(); }
// linear offsets of the selected elements in row-major order
bool select(const Obj &s, std::vector<size_t> &out) {
  size_t r = s.dims.size(), total = 1; for (auto d : s.dims) total *= d; out.clear();
  if (s.all) { for (size_t i = 0; i < total; ++i) out.push_back(i); return true; }
  for (size_t i = 0; i < r; ++i) { if (s.count[i] == 0) return true; if (s.count[i] > s.dims[i] || s.start[i] > s.dims[i] - s.count[i]) return false; }
  std::vector<hsize_t> p(s.start); while (true) { size_t o = 0; for (size_t i = 0; i < r; ++i) o = o * s.dims[i] + p[i]; out.push_back(o); size_t i = r; while (i > 0) { --i; if (++p[i] < s.start[i] + s.count[i]) break; p[i] = s.start[i]; if (i == 0) return true; } if (r == 0) return true; }
}
void coll(MPI_Comm c, const std::string &what, std::function<void()> complete = nullptr) { if (c) fakempi::collectiveCall(c, what, complete); else if (complete) complete(); }
MPI_Comm commOf(const std::string &file) { for (auto &o : objs) if (o.second.kind == Obj::FILE_ && o.second.rank == fakempi::me() && o.second.file == file) return o.second.comm; return nullptr; }
}
void fakeh5::reset() { disk.clear(); objs.clear(); outcome.clear(); next = 10000; }
std::string fakeh5::leaks() { std::string s; for (auto &o : objs) { std::string r = " of process " + std::to_string(o.second.rank); if (o.second.kind == Obj::FILE_) s += " file " + o.second.file + r + " is still open;"; if (o.second.kind == Obj::DSET) s += " dataset " + o.second.name + r + " is still open;"; if (o.second.kind == Obj::ATTR) s += " attribute " + o.second.attr + r + " is still open;"; if (o.second.kind == Obj::FAPL && o.second.comm) s += " an access property list" + r + " still holds a communicator;"; } return s; }
herr_t H5open() { return 0; } herr_t H5close() { return 0; }
hid_t H5Pcreate(hid_t c) { Obj o; o.kind = c == H5P_FILE_ACCESS ? Obj::FAPL : c == H5P_DATASET_XFER ? Obj::DXPL : Obj::PLIST; return add(o); }
herr_t H5Pclose(hid_t h) { auto it = objs.find(h); if (it == objs.end()) return -1; if (it->second.kind == Obj::FAPL && it->second.comm) MPI_Comm_free(&it->second.comm); objs.erase(h); return 0; }
herr_t H5Pset_sieve_buf_size(hid_t h, size_t) { return get(h, Obj::FAPL, "H5Pset_sieve_buf_size") ? 0 : -1; }
herr_t H5Pset_alignment(hid_t h, hsize_t, hsize_t) { return get(h, Obj::FAPL, "H5Pset_alignment") ? 0 : -1; }
herr_t H5Pset_coll_metadata_write(hid_t, hbool_t) { return 0; } herr_t H5Pset_all_coll_metadata_ops(hid_t, hbool_t) { return 0; }
herr_t H5Pset_fapl_mpio(hid_t h, MPI_Comm c, MPI_Info) { Obj *o = get(h, Obj::FAPL, "H5Pset_fapl_mpio"); if (!o || !c) return -1; if (o->comm) MPI_Comm_free(&o->comm); MPI_Comm d = nullptr; MPI_Comm_dup(c, &d); objs[h].comm = d; return 0; }
herr_t H5Pset_dxpl_mpio(hid_t h, H5FD_mpio_xfer_t m) { Obj *o = get(h, Obj::DXPL, "H5Pset_dxpl_mpio"); if (!o) return -1; o->coll = m == H5FD_MPIO_COLLECTIVE; return 0; }
static hid_t openFile(const char *f, const char *name, unsigned flags, hid_t fapl, bool create) {
  MPI_Comm c = nullptr; if (fapl != H5P_DEFAULT) { Obj *p = get(fapl, Obj::FAPL, f); if (!p) return -1; c = p->comm; } std::string n = name, key = std::string(f) + " " + n;
  coll(c, key, [=] { bool ok = true; if (create) { if (disk.count(n) && (disk[n].open > 0 || (flags & H5F_ACC_EXCL))) ok = false; else disk[n] = File(); } else if (!disk.count(n)) ok = false; outcome[key] = ok; });
  if (!outcome[key]) return -1; if (c) { MPI_Comm d = nullptr; MPI_Comm_dup(c, &d); c = d; } Obj o; o.kind = Obj::FILE_; o.file = n; o.comm = c; o.writable = create || flags != H5F_ACC_RDONLY; ++disk[n].open; return add(o);
}
hid_t H5Fcreate(const char *n, unsigned flags, hid_t, hid_t fapl) { return openFile("H5Fcreate", n, flags, fapl, true); }
hid_t H5Fopen(const char *n, unsigned flags, hid_t fapl) { return openFile("H5Fopen", n, flags, fapl, false); }
herr_t H5Fflush(hid_t h, H5F_scope_t) { Obj *o = get(h, Obj::FILE_, "H5Fflush"); if (!o) return -1; coll(o->comm, "H5Fflush " + o->file); return 0; }
herr_t H5Fclose(hid_t h) { Obj *o = get(h, Obj::FILE_, "H5Fclose"); if (!o) return -1; std::string f = o->file; coll(o->comm, "H5Fclose " + f); if (disk.count(f)) --disk[f].open; if (objs.count(h) && objs[h].comm) MPI_Comm_free(&objs[h].comm); objs.erase(h); return 0; }
hid_t H5Dcreate2(hid_t fh, const char *name, hid_t t, hid_t sp, hid_t, hid_t, hid_t) {
  Obj *f = get(fh, Obj::FILE_, "H5Dcreate"), *s = get(sp, Obj::SPACE, "H5Dcreate"); if (!f || !s || !tsize(t) || !f->writable) return -1; std::string file = f->file, n = name, key = "H5Dcreate " + file + " " + n + " type " + std::to_string(t) + " dims " + show(s->dims); auto dims = s->dims;
  coll(f->comm, key, [=] { bool ok = !disk[file].sets.count(n); if (ok) { DSet d; d.type = (int)t; d.dims = dims; size_t k = 1; for (auto x : dims) k *= x; d.data.assign(k, 0); d.writes.assign(k, 0); disk[file].sets[n] = d; } outcome[key] = ok; });
  if (!outcome[key]) return -1; Obj o; o.kind = Obj::DSET; o.file = file; o.name = n; o.writable = true; return add(o);
}
hid_t H5Dopen2(hid_t fh, const char *name, hid_t) { Obj *f = get(fh, Obj::FILE_, "H5Dopen"); if (!f || !disk[f->file].sets.count(name)) return -1; Obj o; o.kind = Obj::DSET; o.file = f->file; o.name = name; o.writable = f->writable; return add(o); }
herr_t H5Dclose(hid_t h) { if (!get(h, Obj::DSET, "H5Dclose")) return -1; objs.erase(h); return 0; }
hid_t H5Dget_space(hid_t h) { Obj *d = get(h, Obj::DSET, "H5Dget_space"); if (!d) return -1; Obj o; o.kind = Obj::SPACE; o.dims = disk[d->file].sets[d->name].dims; return add(o); }
static herr_t transfer(const char *f, hid_t h, hid_t mt, hid_t ms, hid_t fs, hid_t dx, void *buf, bool write) {
  Obj *d = get(h, Obj::DSET, f); if (!d || !tsize(mt) || (write && !d->writable)) return -1; Obj *x = dx == H5P_DEFAULT ? nullptr : get(dx, Obj::DXPL, f); if (dx != H5P_DEFAULT && !x) return -1;
  std::string file = d->file, name = d->name; if (x && x->coll) coll(commOf(file), std::string(f) + " " + file + " " + name);
  DSet &s = disk[file].sets[name]; Obj whole; whole.dims = s.dims; Obj *fo = fs == H5S_ALL ? &whole : get(fs, Obj::SPACE, f), *mo = ms == H5S_ALL ? fo : get(ms, Obj::SPACE, f); if (!fo || !mo || fo->dims != s.dims) return -1;
  std::vector<size_t> a, b; if (!select(*fo, a) || !select(*mo, b) || a.size() != b.size()) return -1;
  for (size_t i = 0; i < a.size(); ++i) if (write) { s.data[a[i]] = asType(s.type, load(mt, buf, b[i])); ++s.writes[a[i]]; } else store(mt, buf, b[i], s.data[a[i]]);
  return 0;
}
herr_t H5Dwrite(hid_t h, hid_t mt, hid_t ms, hid_t fs, hid_t dx, const void *buf) { return transfer("H5Dwrite", h, mt, ms, fs, dx, (void *)buf, true); }
herr_t H5Dread(hid_t h, hid_t mt, hid_t ms, hid_t fs, hid_t dx, void *buf) { return transfer("H5Dread", h, mt, ms, fs, dx, buf, false); }
hid_t H5Screate_simple(int r, const hsize_t *d, const hsize_t *m) { if (r < 0 || r > 32) return -1; Obj o; o.kind = Obj::SPACE; o.dims.assign(d, d + r); if (m) for (int i = 0; i < r; ++i) if (m[i] < d[i]) return -1; for (auto x : o.dims) if (x > (1ull << 40)) return -1; return add(o); }
herr_t H5Sselect_hyperslab(hid_t h, H5S_seloper_t, const hsize_t *st, const hsize_t *stride, const hsize_t *ct, const hsize_t *block) { Obj *s = get(h, Obj::SPACE, "H5Sselect_hyperslab"); if (!s) return -1; size_t r = s->dims.size(); for (size_t i = 0; i < r; ++i) { if (stride && stride[i] != 1 && ct[i] > 1) mc::fail("harness", "strided selection not modelled"); if (block && block[i] != 1) mc::fail("harness", "blocks not modelled"); } s->all = false; s->start.assign(st, st + r); s->count.assign(ct, ct + r); return 0; }
herr_t H5Sselect_none(hid_t h) { Obj *s = get(h, Obj::SPACE, "H5Sselect_none"); if (!s) return -1; s->all = false; s->start.assign(s->dims.size(), 0); s->count.assign(s->dims.size(), 0); return 0; }
herr_t H5Sselect_all(hid_t h) { Obj *s = get(h, Obj::SPACE, "H5Sselect_all"); if (!s) return -1; s->all = true; return 0; }
herr_t H5Sclose(hid_t h) { if (!get(h, Obj::SPACE, "H5Sclose")) return -1; objs.erase(h); return 0; }
int H5Sget_simple_extent_ndims(hid_t h) { Obj *s = get(h, Obj::SPACE, "H5Sget_simple_extent_ndims"); return s ? (int)s->dims.size() : -1; }
int H5Sget_simple_extent_dims(hid_t h, hsize_t *d, hsize_t *m) { Obj *s = get(h, Obj::SPACE, "H5Sget_simple_extent_dims"); if (!s) return -1; for (size_t i = 0; i < s->dims.size(); ++i) { if (d) d[i] = s->dims[i]; if (m) m[i] = s->dims[i]; } return (int)s->dims.size(); }
hid_t H5Acreate2(hid_t dh, const char *name, hid_t t, hid_t sp, hid_t, hid_t) {
  Obj *d = get(dh, Obj::DSET, "H5Acreate"), *s = get(sp, Obj::SPACE, "H5Acreate"); if (!d || !s || !tsize(t) || !d->writable) return -1; std::string file = d->file, set = d->name, n = name, key = "H5Acreate " + file + " " + set + " " + n + " type " + std::to_string(t) + " dims " + show(s->dims); auto dims = s->dims;
  coll(commOf(file), key, [=] { auto &A = disk[file].sets[set].attrs; bool ok = !A.count(n); if (ok) { Attr a; a.type = (int)t; a.dims = dims; size_t k = 1; for (auto x : dims) k *= x; a.data.assign(k, 0); A[n] = a; } outcome[key] = ok; });
  if (!outcome[key]) return -1; Obj o; o.kind = Obj::ATTR; o.file = file; o.name = set; o.attr = n; o.writable = true; return add(o);
}
herr_t H5Awrite(hid_t h, hid_t t, const void *buf) { Obj *a = get(h, Obj::ATTR, "H5Awrite"); if (!a || !tsize(t)) return -1; std::string file = a->file, set = a->name, n = a->attr; std::ostringstream v; { Attr &A = disk[file].sets[set].attrs[n]; for (size_t i = 0; i < A.data.size(); ++i) v << load(t, buf, i) << " "; } coll(commOf(file), "H5Awrite " + set + " " + n + " = " + v.str()); Attr &A = disk[file].sets[set].attrs[n]; for (size_t i = 0; i < A.data.size(); ++i) A.data[i] = asType(A.type, load(t, buf, i)); return 0; }
herr_t H5Aclose(hid_t h) { if (!get(h, Obj::ATTR, "H5Aclose")) return -1; objs.erase(h); return 0; }
htri_t H5Aexists(hid_t h, const char *n) { Obj *d = get(h, Obj::DSET, "H5Aexists"); return d ? (int)disk[d->file].sets[d->name].attrs.count(n) : -1; }
htri_t H5Lexists(hid_t h, const char *n, hid_t) { Obj *f = get(h, Obj::FILE_, "H5Lexists"); return f ? (int)disk[f->file].sets.count(n) : -1; }
