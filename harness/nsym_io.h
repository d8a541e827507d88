// Calls of the code under test to the system's files, one of which (and those after it) can be refused.
long nsym_io_count, nsym_io_fail, nsym_io_fails = 1; int nsym_io_op;
static int iorefuse_(int op) { nsym_io_count++; if (nsym_io_fail && nsym_io_count >= nsym_io_fail && nsym_io_count < nsym_io_fail + nsym_io_fails) { if (!nsym_io_op) nsym_io_op = op; IO_ERR; return 1; } return 0; }
FILE *nsym_fopen(const char *n, const char *m) { return iorefuse_('o') ? NULL : fopen(n, m); }
FILE *nsym_fmemopen(void *b, size_t n, const char *m) { return iorefuse_('m') ? NULL : fmemopen(b, n, m); }
size_t nsym_fread(void *d, size_t s, size_t n, FILE *f) { return iorefuse_('r') ? (n > 1 ? fread(d, s, n / 2, f) : 0) : fread(d, s, n, f); }
size_t nsym_fwrite(const void *d, size_t s, size_t n, FILE *f) { return iorefuse_('w') ? (n > 1 ? fwrite(d, s, n / 2, f) : 0) : fwrite(d, s, n, f); }
int nsym_fseek(FILE *f, long o, int w) { return iorefuse_('s') ? -1 : fseek(f, o, w); }
long nsym_ftell_lie; long nsym_ftell(FILE *f) { return iorefuse_('t') ? -1 : nsym_ftell_lie ? nsym_ftell_lie : ftell(f); }
int nsym_fclose(FILE *f) { int r = fclose(f); return iorefuse_('x') ? -1 : r; }
char *nsym_getcwd(char *b, size_t n) { return iorefuse_('c') ? NULL : getcwd(b, n); }
NS_DIR *nsym_opendir(const char *n) { return iorefuse_('d') ? NULL : opendir(n); }
NS_DIRENT *nsym_readdir(NS_DIR *d) { return iorefuse_('n') ? NULL : readdir(d); }
int nsym_closedir(NS_DIR *d) { int r = closedir(d); return iorefuse_('y') ? -1 : r; }
int nsym_fflush(FILE *f) { int r = fflush(f); return iorefuse_('f') ? -1 : r; }
