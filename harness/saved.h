// Saving and loading objects: scratch directories, loading by configuration, what an object is apart from its caches.
// Shared by the harnesses of C08 and C09.
#ifndef VERIF_SAVED_H
#define VERIF_SAVED_H
#include "obj.h"
#include <fstream>
#include <dirent.h>
#include <sys/stat.h>
using namespace NTL; using namespace std;
// a scratch directory of the current case; removed with everything in it
struct Dir {
    string p; char old[4096];
    Dir() { char t[] = "/tmp/verif-save-XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(3); } p = t; if (!getcwd(old, sizeof old) || chdir(t)) exit(3); }
    static void clean(const string &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (dirent *e = readdir(h)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) { clean(f); rmdir(f.c_str()); } else unlink(f.c_str()); } closedir(h); }
    ~Dir() { if (chdir(old)) {} clean(p); rmdir(p.c_str()); }
};
inline string slurp(const string &f) { ifstream i(f.c_str(), ios::binary); stringstream s; s << i.rdbuf(); return s.str(); }
inline bool exists(const string &f) { struct stat st; return !lstat(f.c_str(), &st); }
inline Obj load(const Cfg &c, const char *name) {
    Obj o;
    if (c.hyp) { if (c.nd) { o.HN = make_shared<hypersurface_non_degenerate>(name); o.H = o.HN; o.N = o.HN->dR_ND; o.J = o.N; } else { o.H = make_shared<hypersurface>(name); o.J = o.H->dR; } }
    else if (c.nd) { o.N = make_shared<de_Rham_non_degenerate_local>(name); o.J = o.N; } else o.J = make_shared<de_Rham_local>(name);
    return o;
}
inline bool save(const Cfg &c, Obj &o, const char *name) { return c.hyp ? o.H->save(name) : o.J->save(name); }
// what an object is, apart from its caches
inline string core(const Obj &x) {
    ostringstream o; const de_Rham_local &D = *x.J;
    ser(o, D.p); ser(o, D.precision); ser(o, D.save_memory); ser(o, D.verbose); ser(o, D.n); ser(o, D.d); ser(o, D.f); ser(o, D.fbar); ser(o, D.Hilbert_J); ser(o, D.coKernels_J_basis); ser(o, D.coKernels_J_basis_dict); ser(o, D.tuple_list);
    for (long i = 0; i < D.tuple_dict.length(); ++i) ser(o, D.tuple_dict[i]);
    if (x.N) { ser(o, x.N->Hilbert_ND); ser(o, x.N->coKernels_ND_basis); ser(o, x.N->coKernels_ND_basis_dict); }
    if (x.H) { ser(o, x.H->p); ser(o, x.H->precision); ser(o, x.H->n); ser(o, x.H->d); ser(o, x.H->verbose); for (long i = 0; i < x.H->fpow.length(); ++i) ser(o, x.H->fpow.get(i)); }
    return o.str();
}
// f with zero coefficients dropped from the map is the same equation
inline string coreless(Obj o) { auto &f = o.J->f; for (auto it = f.begin(); it != f.end();) if (IsZero(it->second)) f.erase(it++); else ++it; auto &g = o.J->fbar; for (auto it = g.begin(); it != g.end();) if (IsZero(it->second)) g.erase(it++); else ++it; if (o.H) { auto &h = o.H->fpow; (void)h; } return core(o); }
#endif
