// Crash points at every call that changes the file system.  The including
// harness defines armed() and crash(); it is linked with --wrap for
// rename remove unlink rmdir mkdir fflush fclose fopen write.
// ---------------------------------------------------------------- crash points
int __real_rename(const char *a, const char *b);
int __real_remove(const char *a);
int __real_unlink(const char *a);
int __real_rmdir(const char *a);
int __real_mkdir(const char *a, mode_t m);
int __real_fflush(FILE *f);
int __real_fclose(FILE *f);
FILE *__real_fopen(const char *p, const char *m);
ssize_t __real_write(int fd, const void *p, size_t n);
int __wrap_rename(const char *a, const char *b);
int __wrap_remove(const char *a);
int __wrap_unlink(const char *a);
int __wrap_rmdir(const char *a);
int __wrap_mkdir(const char *a, mode_t m);
int __wrap_fflush(FILE *f);
int __wrap_fclose(FILE *f);
FILE *__wrap_fopen(const char *p, const char *m);
ssize_t __wrap_write(int fd, const void *p, size_t n);

static void crash_point(const char *what, const char *path){
    if(!armed()) return;
    const char *s = strrchr(path, '/');
    char w[200]; snprintf(w, sizeof(w), "%s %s", what, s ? s + 1 : path);
    if(mc_dev(2, "crash")) crash(w);
}
int __wrap_rename(const char *a, const char *b){ crash_point("rename", b); return __real_rename(a, b); }
int __wrap_remove(const char *a){ crash_point("remove", a); return __real_remove(a); }
int __wrap_unlink(const char *a){ crash_point("unlink", a); return __real_unlink(a); }
int __wrap_rmdir(const char *a){ crash_point("rmdir", a); return __real_rmdir(a); }
int __wrap_mkdir(const char *a, mode_t m){ crash_point("mkdir", a); return __real_mkdir(a, m); }
FILE *__wrap_fopen(const char *p, const char *m){
    if(*m != 'r') crash_point("fopen", p);
    return __real_fopen(p, m);
}
static off_t fdsize(int fd){ struct stat st; if(fstat(fd, &st)) return -1; return st.st_size; }
// with disk_full, a write may also fail after a part of the data
static bool disk_full, disk_was_full;
static bool torn(int fd, off_t s0, const char *what){
    off_t s1 = fdsize(fd);
    if(s0 < 0 || s1 <= s0) return false;
    unsigned k = mc_dev(disk_full ? 7 : 4, "torn write");
    if(!k) return false;
    bool full = k > 3; if(full) k -= 3;
    off_t keep = k == 1 ? s0 : k == 2 ? s0 + (s1 - s0) / 2 : s1 - 1;
    if(ftruncate(fd, keep)) mc_error("ftruncate");
    if(!full) crash(what);
    errno = ENOSPC;
    disk_was_full = true;
    on_disk_full();
    return true;
}
int __wrap_fflush(FILE *f){
    if(!armed() || !f) return __real_fflush(f);
    off_t s0 = fdsize(fileno(f));
    int r = __real_fflush(f);
    if(torn(fileno(f), s0, "fflush")) return EOF;
    return r;
}
int __wrap_fclose(FILE *f){
    if(!armed() || !f) return __real_fclose(f);
    int fd = dup(fileno(f));
    off_t s0 = fdsize(fd);
    int r = __real_fclose(f);
    if(torn(fd, s0, "fclose")) r = EOF;
    close(fd);
    return r;
}
ssize_t __wrap_write(int fd, const void *p, size_t n){
    if(!armed()) return __real_write(fd, p, n);
    off_t s0 = fdsize(fd);
    ssize_t r = __real_write(fd, p, n);
    if(torn(fd, s0, "write")) return -1;
    return r;
}

