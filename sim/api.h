// C interface between the simulator and one build ("variant") of PandaResampler.
#pragma once
#include <cstddef>

enum { RC_OK = 0, RC_BAD_ALLOC = 1, RC_EXCEPTION = 2, RC_USER_EXCEPTION = 3 };

struct TrackHooks            // element construction / destruction seam for AlignedArray<Tracked>
{
  int  (*on_construct) (void *self);   // nonzero: throw
  void (*on_destroy) (void *self);
};

struct VApi
{
  size_t obj_size, obj_align;
  int    (*construct) (void *mem, int mode, unsigned ratio, int prec, int sse, int filter);
  void   (*destroy) (void *mem);
  int    (*process) (void *mem, const float *in, unsigned n, float *out);
  int    (*reset) (void *mem);
  int    (*order) (const void *mem, unsigned *v);
  int    (*delay) (const void *mem, double *v);
  int    (*sse_enabled) (const void *mem, int *v);
  int    (*move_construct) (void *dst, void *src);
  int    (*move_assign) (void *dst, void *src);
  int    (*swap) (void *a, void *b);
  int    (*grow) (void *mem, int extra, int how);
  int    (*sse_available) ();
  int    (*find_prec) (unsigned bits);
  const char *(*prec_name) (int prec);
  int    (*self_test) (int verbose, int *ok);
  // AlignedArray: kind 0 float, 1 double, 2 char, 3 Tracked (16 bytes), 4 Tracked (12 bytes), 5 Tracked (200 bytes)
  size_t (*aa_elem_size) (int kind);
  int    (*aa_construct) (void *mem, int kind, size_t n);
  int    (*aa_construct_vec) (void *mem, int kind, size_t n, unsigned long seed);
  void   (*aa_destroy) (void *mem, int kind);
  size_t (*aa_size) (void *mem, int kind);
  void  *(*aa_at) (void *mem, int kind, size_t i);
  const void *(*aa_cat) (const void *mem, int kind, size_t i);
  void  *(*aa_begin) (void *mem, int kind);
  void  *(*aa_end) (void *mem, int kind);
  int    (*aa_copyable) (int kind);
  int    (*aa_copy) (void *dst, void *src, int kind);
  size_t aa_obj_size;
  void   (*set_hooks) (const TrackHooks *hooks);
  const char *id;
};

extern "C" const VApi *panda_variant_api();
