// An in-memory file system below SQLite, under the simulator's control: it
// counts operations, fails the ones it is told to, and on a power loss keeps
// only what had been synced plus a seeded part of what had not.
#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>

typedef long long i64;
typedef struct sqlite3_vfs sqlite3_vfs;
typedef struct sqlite3_file sqlite3_file;
typedef struct sqlite3_io_methods {
  int iVersion;
  int (*xClose)(sqlite3_file *);
  int (*xRead)(sqlite3_file *, void *, int, i64);
  int (*xWrite)(sqlite3_file *, const void *, int, i64);
  int (*xTruncate)(sqlite3_file *, i64);
  int (*xSync)(sqlite3_file *, int);
  int (*xFileSize)(sqlite3_file *, i64 *);
  int (*xLock)(sqlite3_file *, int);
  int (*xUnlock)(sqlite3_file *, int);
  int (*xCheckReservedLock)(sqlite3_file *, int *);
  int (*xFileControl)(sqlite3_file *, int, void *);
  int (*xSectorSize)(sqlite3_file *);
  int (*xDeviceCharacteristics)(sqlite3_file *);
} sqlite3_io_methods;
struct sqlite3_file { const sqlite3_io_methods *pMethods; };
struct sqlite3_vfs {
  int iVersion, szOsFile, mxPathname;
  sqlite3_vfs *pNext;
  const char *zName;
  void *pAppData;
  int (*xOpen)(sqlite3_vfs *, const char *, sqlite3_file *, int, int *);
  int (*xDelete)(sqlite3_vfs *, const char *, int);
  int (*xAccess)(sqlite3_vfs *, const char *, int, int *);
  int (*xFullPathname)(sqlite3_vfs *, const char *, int, char *);
  void *(*xDlOpen)(sqlite3_vfs *, const char *);
  void (*xDlError)(sqlite3_vfs *, int, char *);
  void (*(*xDlSym)(sqlite3_vfs *, void *, const char *))(void);
  void (*xDlClose)(sqlite3_vfs *, void *);
  int (*xRandomness)(sqlite3_vfs *, int, char *);
  int (*xSleep)(sqlite3_vfs *, int);
  int (*xCurrentTime)(sqlite3_vfs *, double *);
  int (*xGetLastError)(sqlite3_vfs *, int, char *);
};
extern int sqlite3_vfs_register(sqlite3_vfs *, int);

enum { OK = 0, BUSY = 5, IOERR = 10, FULL = 13, CANTOPEN = 14 };
#define IOERR_READ (IOERR | 1 << 8)
#define IOERR_SHORT_READ (IOERR | 2 << 8)
#define IOERR_WRITE (IOERR | 3 << 8)
#define IOERR_FSYNC (IOERR | 4 << 8)
#define IOERR_TRUNCATE (IOERR | 6 << 8)
#define IOERR_FSTAT (IOERR | 7 << 8)
#define IOERR_DELETE (IOERR | 10 << 8)
#define IOERR_DELETE_NOENT (IOERR | 23 << 8)
#define IOERR_ACCESS (IOERR | 13 << 8)
#define IOERR_LOCK (IOERR | 15 << 8)

typedef struct buf { unsigned char *p; i64 n; } buf;
typedef struct op { i64 off; int n; unsigned char *data; i64 trunc; struct op *next; } op;
typedef struct ino {
  buf cur, dur;
  op *pend, *last; // since the last sync
  char *name;      // NULL once unlinked
  int root, exists, durexists;
  int shared, reserved, pending, exclusive; // locks: count and owner connection
  int refs;
  struct ino *next;
} ino;
typedef struct file { sqlite3_file base; ino *i; int conn, lock, delclose, dead; struct file *next; } file;

static ino *inodes;
static file *handles;
static int root, conn;                    // whose call is being served
static int ops, failat, failkind, hit;    // fault plan of the call
static unsigned failseed;
static int frozen;                        // after a power loss
static int full;                          // the disk is full
static i64 slept;
static unsigned long long rnd = 88172645463325252ULL;
static int counts[16];
static unsigned vers[4096]; // changes per root, roughly
#define CHANGED(r) (vers[(r) & 4095]++)

static unsigned long long nextrnd(void) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }

static void changed(void) { CHANGED(root); }
static void put(buf *b, const void *d, i64 n, i64 off) {
  if (off + n > b->n) {
    b->p = realloc(b->p, off + n);
    memset(b->p + b->n, 0, off + n - b->n);
    b->n = off + n;
  }
  memcpy(b->p + off, d, n);
}
static void cut(buf *b, i64 n) {
  if (n < b->n) b->n = n;
  else if (n > b->n) { b->p = realloc(b->p, n); memset(b->p + b->n, 0, n - b->n); b->n = n; }
}
static void copy(buf *d, buf *s) {
  free(d->p);
  d->p = malloc(s->n + 1);
  if (s->n) memcpy(d->p, s->p, s->n);
  d->n = s->n;
}
static void forget(ino *i) {
  while (i->pend) { op *o = i->pend; i->pend = o->next; free(o->data); free(o); }
  i->last = 0;
}
static void durable(ino *i) { copy(&i->dur, &i->cur); i->durexists = i->exists; forget(i); }

static void reap(void) {
  for (ino **p = &inodes; *p;) {
    ino *i = *p;
    if (!i->exists && !i->durexists && i->refs == 0) {
      *p = i->next;
      forget(i); free(i->cur.p); free(i->dur.p); free(i->name); free(i);
    } else p = &i->next;
  }
}

static ino *lookup(const char *name) {
  for (ino *i = inodes; i; i = i->next)
    if (i->exists && i->root == root && i->name && !strcmp(i->name, name)) return i;
  return 0;
}

// a power loss: in every file a seeded part of the unsynced changes is lost
static void power(unsigned seed) {
  changed();
  unsigned long long save = rnd;
  rnd = seed * 2654435761u + 88172645463325252ULL;
  for (int k = 0; k < 4; k++) nextrnd();
  int mode = nextrnd() % 4; // 0: nothing unsynced survives, 1: all of it, 2, 3: some
  for (ino *i = inodes; i; i = i->next) {
    if (i->root != root) continue;
    int isdb = i->name && !strstr(i->name, "-journal");
    int stop = 0;
    for (op *o = i->pend; o; o = o->next) {
      int keep = mode == 1 || mode >= 2 && nextrnd() % 2;
      if (!isdb) { // a log keeps its beginning
        if (mode >= 2 && nextrnd() % 4 == 0) stop = 1;
        keep = mode != 0 && !stop;
      }
      if (o->data == 0) { if (keep) cut(&i->dur, o->trunc); continue; }
      int n = o->n;
      if (!keep && mode >= 2 && n > 512 && nextrnd() % 2) { n = (int)(nextrnd() % (n / 512 + 1)) * 512; keep = n > 0; } // torn
      if (keep) put(&i->dur, o->data, n, o->off);
    }
    int k = mode == 1 || mode >= 2 && nextrnd() % 2;
    if (i->exists != i->durexists && !k) i->exists = i->durexists; // directory entry
    i->durexists = i->exists;
    copy(&i->cur, &i->dur);
    forget(i);
  }
  // one name, one file: an unlinked file that came back loses to a newer one
  for (ino *i = inodes; i; i = i->next)
    for (ino *j = i->next; j; j = j->next)
      if (i->exists && j->exists && i->root == j->root && !strcmp(i->name, j->name)) j->exists = j->durexists = 0;
  rnd = save;
}

// gate decides each operation's fate. 0: go ahead.
enum { O_OPEN = 1, O_READ, O_WRITE, O_TRUNC, O_SYNC, O_SIZE, O_LOCK, O_DELETE, O_ACCESS };
static int gate(int kind, int err) {
  if (frozen) return err;
  ops++;
  counts[kind]++;
  if (full && (kind == O_WRITE)) return FULL;
  if (failat && ops >= failat && !hit) {
    switch (failkind) {
    case F_IOERR:
      if (ops != failat) break;
      hit = 1;
      return err;
    case F_FULL: // from here on nothing more fits
      if (kind != O_WRITE) break;
      hit = full = 1;
      return FULL;
    case F_BUSY:
      if (kind != O_LOCK) break;
      hit = 1;
      return BUSY;
    case F_POWER:
      hit = 1;
      frozen = 1;
      power(failseed);
      return err;
    }
  }
  return 0;
}

static int rel(file *f, int to) {
  ino *i = f->i;
  if (!i || f->lock <= to) return OK;
  if (f->lock >= 4) i->exclusive = 0;
  if (f->lock >= 3 && i->pending == f->conn) i->pending = 0;
  if (f->lock >= 2 && to < 2 && i->reserved == f->conn) i->reserved = 0;
  if (f->lock >= 1 && to < 1) i->shared--;
  f->lock = to;
  return OK;
}

static int fClose(sqlite3_file *x) {
  file *f = (file *)x;
  if (!f->dead) {
    rel(f, 0);
    if (f->delclose && f->i->exists) f->i->exists = f->i->durexists = 0;
  }
  if (f->i) f->i->refs--;
  for (file **p = &handles; *p; p = &(*p)->next)
    if (*p == f) { *p = f->next; break; }
  f->i = 0;
  reap();
  return OK;
}
static int fRead(sqlite3_file *x, void *d, int n, i64 off) {
  file *f = (file *)x;
  if (f->dead) return IOERR_READ;
  int e = gate(O_READ, IOERR_READ);
  if (e) return e;
  i64 have = f->i->cur.n - off;
  if (have >= n) { memcpy(d, f->i->cur.p + off, n); return OK; }
  if (have < 0) have = 0;
  if (have) memcpy(d, f->i->cur.p + off, have);
  memset((char *)d + have, 0, n - have);
  return IOERR_SHORT_READ;
}
static void note(ino *i, op *o) { o->next = 0; if (i->last) i->last->next = o; else i->pend = o; i->last = o; }
static int fWrite(sqlite3_file *x, const void *d, int n, i64 off) {
  file *f = (file *)x;
  changed();
  if (f->dead) return IOERR_WRITE;
  int e = gate(O_WRITE, IOERR_WRITE);
  if (e) {
    if (hit && failkind == F_IOERR && ops == failat && n > 512 && failseed % 2) { // a short write
      int k = n / 1024 * 512;
      put(&f->i->cur, d, k, off);
      op *o = calloc(1, sizeof *o);
      o->off = off; o->n = k; o->data = malloc(k); memcpy(o->data, d, k);
      note(f->i, o);
    }
    return e;
  }
  put(&f->i->cur, d, n, off);
  op *o = calloc(1, sizeof *o);
  o->off = off; o->n = n; o->data = malloc(n); memcpy(o->data, d, n);
  note(f->i, o);
  return OK;
}
static int fTrunc(sqlite3_file *x, i64 n) {
  file *f = (file *)x;
  changed();
  if (f->dead) return IOERR_TRUNCATE;
  int e = gate(O_TRUNC, IOERR_TRUNCATE);
  if (e) return e;
  cut(&f->i->cur, n);
  op *o = calloc(1, sizeof *o);
  o->trunc = n;
  note(f->i, o);
  return OK;
}
static int fSync(sqlite3_file *x, int flags) {
  (void)flags;
  file *f = (file *)x;
  if (f->dead) return IOERR_FSYNC;
  int e = gate(O_SYNC, IOERR_FSYNC);
  if (e) return e;
  durable(f->i);
  return OK;
}
static int fSize(sqlite3_file *x, i64 *n) {
  file *f = (file *)x;
  if (f->dead) return IOERR_FSTAT;
  int e = gate(O_SIZE, IOERR_FSTAT);
  if (e) return e;
  *n = f->i->cur.n;
  return OK;
}
static int fLock(sqlite3_file *x, int l) {
  file *f = (file *)x;
  if (f->dead) return IOERR_LOCK;
  int e = gate(O_LOCK, IOERR_LOCK);
  if (e) return e;
  ino *i = f->i;
  if (f->lock >= l) return OK;
  if (l == 1) {
    if (i->pending || i->exclusive) return BUSY;
    i->shared++;
    f->lock = 1;
  } else if (l == 2) {
    if (i->reserved && i->reserved != f->conn || i->exclusive) return BUSY;
    i->reserved = f->conn;
    f->lock = 2;
  } else {
    if (i->pending && i->pending != f->conn || i->exclusive && i->exclusive != f->conn || i->reserved && i->reserved != f->conn) return BUSY;
    if (l == 4) {
      i->pending = f->conn;
      if (f->lock < 3) f->lock = 3;
      if (i->shared > 1) return BUSY;
      i->exclusive = f->conn;
    }
    f->lock = l;
  }
  return OK;
}
static int fUnlock(sqlite3_file *x, int l) { return rel((file *)x, l); }
static int fReserved(sqlite3_file *x, int *r) {
  file *f = (file *)x;
  *r = f->i && (f->i->reserved || f->i->pending || f->i->exclusive);
  return OK;
}
static int fControl(sqlite3_file *x, int o, void *a) { (void)x; (void)o; (void)a; return 12; } // NOTFOUND
static int fSector(sqlite3_file *x) { (void)x; return 512; }
static int fDev(sqlite3_file *x) { (void)x; return 0; }
static const sqlite3_io_methods methods = {1, fClose, fRead, fWrite, fTrunc, fSync, fSize, fLock, fUnlock, fReserved, fControl, fSector, fDev};

static int vOpen(sqlite3_vfs *v, const char *name, sqlite3_file *x, int flags, int *out) {
  (void)v;
  file *f = (file *)x;
  memset(f, 0, sizeof *f);
  int e = gate(O_OPEN, CANTOPEN);
  if (e) return e == FULL ? CANTOPEN : e;
  ino *i = name ? lookup(name) : 0;
  if (!i && name && !(flags & 4)) return CANTOPEN; // SQLITE_OPEN_CREATE
  if (i && (flags & 16) && (flags & 4)) return CANTOPEN; // EXCLUSIVE
  if (!i) {
    i = calloc(1, sizeof *i);
    i->root = root;
    i->name = strdup(name ? name : "");
    i->exists = name != 0;
    i->next = inodes;
    inodes = i;
  }
  i->refs++;
  f->i = i;
  f->conn = conn;
  f->delclose = (flags & 8) != 0;
  f->base.pMethods = &methods;
  f->next = handles;
  handles = f;
  if (out) *out = flags;
  return OK;
}
static int vDelete(sqlite3_vfs *v, const char *name, int sync) {
  (void)v;
  changed();
  int e = gate(O_DELETE, IOERR_DELETE);
  if (e) return e;
  ino *i = lookup(name);
  if (!i) return IOERR_DELETE_NOENT;
  i->exists = 0;
  if (sync) i->durexists = 0;
  reap();
  return OK;
}
static int vAccess(sqlite3_vfs *v, const char *name, int flags, int *res) {
  (void)v; (void)flags;
  int e = gate(O_ACCESS, IOERR_ACCESS);
  if (e) return e;
  *res = lookup(name) != 0;
  return OK;
}
static int vFull(sqlite3_vfs *v, const char *name, int n, char *out) {
  (void)v;
  snprintf(out, n, "%s%s", name[0] == '/' ? "" : "/", name);
  return OK;
}
static int vRandom(sqlite3_vfs *v, int n, char *out) {
  (void)v;
  for (int k = 0; k < n; k++) out[k] = (char)nextrnd();
  return n;
}
static int vSleep(sqlite3_vfs *v, int us) { (void)v; slept += us; return us; }
static int vTime(sqlite3_vfs *v, double *t) { (void)v; *t = 2459000.5; return OK; }
static int vErr(sqlite3_vfs *v, int n, char *o) { (void)v; (void)n; (void)o; return 0; }
static sqlite3_vfs sim = {1, sizeof(file), 512, 0, "sim", 0, vOpen, vDelete, vAccess, vFull, 0, 0, 0, 0, vRandom, vSleep, vTime, vErr};

int lv_register(void) { return sqlite3_vfs_register(&sim, 1); }
void lv_enter(int r, int c) { root = r; conn = c; }
void lv_seed(unsigned s) { rnd = s * 2654435761u + 88172645463325252ULL; }
void lv_arm(int at, int kind, unsigned seed) { failat = at; failkind = kind; failseed = seed; ops = 0; hit = 0; }
int lv_disarm(void) { int h = hit; failat = 0; hit = 0; return h; }
int lv_ops(void) { return ops; }
int lv_frozen(void) { return frozen; }
i64 lv_slept(void) { i64 s = slept; slept = 0; return s; }
int lv_count(int k) { int c = counts[k]; counts[k] = 0; return c; }
// lv_calm: the machine is up again and its disk has room
void lv_calm(void) { frozen = full = 0; failat = 0; }
// lv_vanish: the process holding the connection is gone; the files keep what it wrote
void lv_vanish(int c) {
  for (file *f = handles; f; f = f->next)
    if (f->conn == c && f->i && !f->dead) { rel(f, 0); f->dead = 1; }
}
// lv_flush: enough time has passed for everything to be on disk
void lv_flush(int r) {
  for (ino *i = inodes; i; i = i->next)
    if (i->root == r) durable(i);
  reap();
}
unsigned lv_version(int r) { return vers[r & 4095]; }
void lv_touch(int r, const char *name) {
  root = r;
  CHANGED(r);
  if (lookup(name)) return;
  ino *i = calloc(1, sizeof *i);
  i->root = r; i->name = strdup(name); i->exists = i->durexists = 1;
  i->next = inodes;
  inodes = i;
}
void lv_wipe(int r) {
  CHANGED(r);
  for (ino *i = inodes; i; i = i->next)
    if (i->root == r) i->exists = i->durexists = 0;
  reap();
}
void lv_copy(int from, int to) {
  lv_wipe(to);
  for (ino *i = inodes; i; i = i->next) {
    if (i->root != from || !i->exists) continue;
    ino *n = calloc(1, sizeof *n);
    n->root = to; n->name = strdup(i->name); n->exists = n->durexists = 1;
    copy(&n->cur, &i->cur); copy(&n->dur, &i->cur);
    n->next = inodes;
    inodes = n;
  }
}
int lv_files(int r, char *out, int n) {
  int k = 0;
  out[0] = 0;
  for (ino *i = inodes; i; i = i->next)
    if (i->root == r && i->exists) { k += snprintf(out + k, k < n ? n - k : 0, "%s\n", i->name); }
  return k;
}
// lv_ghost: nothing reaches the files any more
void lv_ghost(int on) { static int was; if (on) { was = frozen; frozen = 1; } else frozen = was; }
