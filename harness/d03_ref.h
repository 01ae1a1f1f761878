// an independent reading of a message's header
typedef struct { size_t b0, b1, n0, n1, v0, v1; } reff_t;
typedef struct { bool ok; reff_t f[2000]; int nf; size_t s0, s1, hend; } ref_t;
static size_t ref_eol(const char *m, size_t n, size_t i){       // the length of the line end at i
    if(i >= n || (m[i] != '\r' && m[i] != '\n')) return 0;
    return i + 1 < n && m[i+1] == (m[i] == '\r' ? '\n' : '\r') ? 2 : 1;
}
static bool ref_name(unsigned char c){ return c > 32 && c != 127 && c != ':'; }
static void ref_split(const char *m, size_t n, ref_t *r){
    size_t i = 0, l; r->nf = 0; r->ok = true;
    for(;;){
        if(i == n){ r->s0 = r->s1 = r->hend = n; return; }
        if((l = ref_eol(m, n, i))){ r->s0 = i; r->s1 = r->hend = i + l; return; }
        reff_t *f = &r->f[r->nf++]; f->b0 = f->n0 = i;
        while(i < n && ref_name((unsigned char)m[i])) i++;
        f->n1 = i;
        while(i < n && (m[i] == ' ' || m[i] == '\t')) i++;
        if(f->n1 == f->n0 || i == n || m[i] != ':') break;
        f->v0 = ++i;
        for(;;){
            while(i < n && !(l = ref_eol(m, n, i))) i++;
            if(i == n) goto bad;
            f->v1 = i; i += l;
            if(i == n || (m[i] != ' ' && m[i] != '\t')) break;
        }
        f->b1 = i;
    }
bad:    // not readable: all of it is the body
    r->ok = false; r->nf = 0; r->s0 = r->s1 = r->hend = 0;
}
