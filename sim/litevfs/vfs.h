enum { F_IOERR = 1, F_FULL, F_BUSY, F_POWER };
int lv_register(void);
void lv_enter(int r, int c);
void lv_seed(unsigned s);
void lv_arm(int at, int kind, unsigned seed);
int lv_disarm(void);
int lv_ops(void);
int lv_frozen(void);
long long lv_slept(void);
int lv_count(int k);
void lv_calm(void);
void lv_vanish(int c);
void lv_flush(int r);
void lv_wipe(int r);
void lv_copy(int from, int to);
int lv_files(int r, char *out, int n);
void lv_ghost(int on);
unsigned lv_version(int r);
void lv_touch(int r, const char *name);
