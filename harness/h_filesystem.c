// C24: path predicates and path building; C25: directory iteration and directory size.
//VP unit=fs_status prop=C24,C31 funcs=rcutils_is_directory,rcutils_is_file,rcutils_exists,rcutils_is_readable,rcutils_is_writable,rcutils_is_readable_and_writable,rcutils_get_file_size,rcutils_get_cwd unwind=7 punwind=6 bound="none: no loops in the code"
//VP unit=fs_mkdir prop=C24,C31 funcs=rcutils_mkdir,rcutils_is_directory unwind=6 punwind=6 bound="none: no loops in the code"
//VP unit=fs_paths prop=C24,C30,C31 funcs=rcutils_join_path,rcutils_to_native_path,rcutils_expand_user unwind=14 punwind=14 bound="paths of up to 3 characters"
//VP unit=fs_iter prop=C25,C30,C31 funcs=rcutils_dir_iter_start,rcutils_dir_iter_next,rcutils_dir_iter_end unwind=6 punwind=12 bound="directories of up to 3 entries" 
//VP unit=fs_next prop=C25,C31 nentry=h_fs_iter funcs=rcutils_dir_iter_next,rcutils_dir_iter_end modes=proof punwind=12
//VP unit=fs_check prop=C25,C30 nentry=h_fs_tree funcs=check_and_calculate_size,rcutils_join_path,rcutils_is_directory,rcutils_get_file_size modes=proof punwind=14
//VP unit=fs_walk solver=cadical pflags="--object-bits 11" prop=C25,C30 defs=-DFS_WALK nentry=h_fs_tree funcs=rcutils_calculate_directory_size_with_recursion,rcutils_calculate_directory_size loops=rcutils_calculate_directory_size_with_recursion_0,rcutils_calculate_directory_size_with_recursion_1 replace=check_and_calculate_size/contract_check,remove_first_dir_from_list/contract_remove,free_dir_list/contract_free,rcutils_dir_iter_start/contract_start,rcutils_dir_iter_next/contract_next,rcutils_dir_iter_end/contract_end,rcutils_is_directory/contract_isdir modes=proof punwind=9
//VP unit=fs_list prop=C25,C30 defs=-DFS_LIST nentry=h_fs_tree funcs=free_dir_list,remove_first_dir_from_list loops=free_dir_list_0 modes=proof punwind=14
//VP trust: stat, lstat, mkdir, getcwd, opendir, readdir, closedir behave as POSIX specifies (modelled: arbitrary results; a null path fails)
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
//VP trust: rcutils_format_string_limit, rcutils_strdup and rcutils_repl_str by the contracts checked for them in C04 and C03
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "vp_strfmt.h"
#include "rcutils/strdup.h"
#include "rcutils/repl_str.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#ifdef VP_PROOF
size_t g_re_w;
#endif
#ifndef VP_NATIVE
static char * vp_copy_str(const char * s, rcutils_allocator_t a, char from, char to)
{
  if (s == NULL) {return NULL;}
  size_t n = strlen(s);
  char * c = a.allocate(n + 1, a.state);
  if (c == NULL) {return NULL;}
#ifdef VP_PROOF
  if (g_w < n) {c[g_w] = s[g_w] == from ? to : s[g_w];}
#else
  for (size_t i = 0; i < n; ++i) {c[i] = s[i] == from ? to : s[i];}
#endif
  c[n] = 0;
#ifdef VP_PROOF
  g_s3.base = c;
  g_s3.len = n;
#endif
  return c;
}
#ifdef FS_WALK
static char * fw_strdup(const char * s);
#endif
char * rcutils_strdup(const char * s, rcutils_allocator_t a)
{
#ifdef FS_WALK
  return fw_strdup(s);
#endif
  return vp_copy_str(s, a, 0, 0);
}
char * rcutils_repl_str(const char * s, const char * from, const char * to, const rcutils_allocator_t * a)
{
  VP_CHECK(from[0] != 0 && from[1] == 0 && to[0] != 0 && to[1] == 0, "one character is replaced by one character");
  return vp_copy_str(s, *a, from[0], to[0]);
}
#else
#include "strdup.c"
#include "repl_str.c"
#include "snprintf.c"
#include "format_string.c"
#endif
#ifdef VP_PROOF
static int vp_strncmp(const char * a, const char * b, size_t n)
{
  // b is a short literal
  int r = 0;
  bool end = false;
  for (unsigned i = 0; i < 4; ++i) {
    if (!end && i < n) {
      r = (unsigned char)a[i] - (unsigned char)b[i];
      end = r != 0 || b[i] == 0;
    }
  }
  VP_CHECK(end || n <= 4, "comparison with a short literal");
  return r;
}
#define strncmp vp_strncmp
#define strcmp(a, b) vp_strncmp(a, b, SIZE_MAX)
#endif

// ---- the file system, as the system calls show it ------------------------------------------------
static int (* g_stat)(const char * p, struct stat * b, bool link);
static int vp_stat(const char * p, struct stat * b) {return g_stat(p, b, false);}
static int vp_lstat(const char * p, struct stat * b) {return g_stat(p, b, true);}
static int vp_access(const char * p, int m) {(void)p; (void)m; return vp_bool() ? 0 : -1;}
#define stat(p, b) vp_stat(p, b)
#define lstat(p, b) vp_lstat(p, b)
#define access(p, m) vp_access(p, m)

static struct
{
  const char * path;
  bool fail, link;
  mode_t mode;
  off_t size;
  int calls;
  int mk_calls, mk_errno;
  bool cwd_fail;
  size_t cwd_len;
} g_st;
static int vp_one_stat(const char * p, struct stat * b, bool link)
{
  VP_CHECK(p == g_st.path, "the status of the given path is read");
  VP_CHECK(b != NULL, "stat has somewhere to write to");
  g_st.calls++;
  if (p == NULL || g_st.fail) {errno = p ? ENOENT : EFAULT; return -1;}
  struct stat s = {0};
  s.st_mode = link && g_st.link ? S_IFLNK | 0777 : g_st.mode;
  s.st_size = link && g_st.link ? 3 : g_st.size;
  *b = s;
  return 0;
}
static int vp_mkdir(const char * p, mode_t mode)
{
  VP_CHECK(p == g_st.path && p != NULL, "the given directory is made");
  VP_CHECK((mode & 0700) == 0700, "the directory can be used by its owner");
  g_st.mk_calls++;
  if (g_st.mk_errno == 0) {return 0;}
  errno = g_st.mk_errno;
  return -1;
}
#define mkdir(p, m) vp_mkdir(p, m)
static char * vp_getcwd(char * b, size_t n)
{
  VP_CHECK(b != NULL && n > 0, "getcwd gets a buffer");
#ifdef VP_PROOF
  VP_CHECK(__CPROVER_w_ok(b, n), "the buffer is as large as stated");
#endif
  if (g_st.cwd_fail || n <= g_st.cwd_len) {errno = ERANGE; return NULL;}
  b[g_st.cwd_len] = 0;
  if (g_w < g_st.cwd_len) {b[g_w] = 'w';}
  return b;
}
#define getcwd(b, n) vp_getcwd(b, n)
static const char * g_home;
const char * rcutils_get_home_dir(void) {return g_home;}

static DIR * (* g_opendir)(const char *);
static struct dirent * (* g_readdir)(DIR *);
static int (* g_closedir)(DIR *);
static size_t g_open;       // directories open
#define opendir(p) g_opendir(p)
#define readdir(d) g_readdir(d)
#define closedir(d) g_closedir(d)

#ifdef VP_PROOF
// the walk over the pending directories, see h_fs_walk
static struct
{
  char path;
  size_t pending;       // directories still in the list
  uint64_t sum;         // what check_and_calculate_size added
  bool used;            // the current entry has been counted
  bool more;            // there is a current entry
  bool failed;          // something failed
  char name;
} g_t;
static bool g_isdir;
#define VP_LOOP_rcutils_calculate_directory_size_with_recursion_0 \
  __CPROVER_assigns(ret, iter, dir_list, *size, g_t, g_open, g_al, __CPROVER_object_whole(&g_node), __CPROVER_object_whole(&g_it)) \
  __CPROVER_loop_invariant(dir_list == &g_node && g_t.pending >= 1 && g_t.pending < VP_MAXOBJ && *size == g_t.sum && ret == RCUTILS_RET_OK && g_open == 0 && !g_t.failed && !g_al.failed) \
  __CPROVER_loop_invariant(g_node.path == &g_t.path)
#define VP_BODY_rcutils_calculate_directory_size_with_recursion_0 dir_list = (VP_CHECK(dir_list == &g_node, "the first pending directory"), &g_node);
#define VP_LOOP_rcutils_calculate_directory_size_with_recursion_1 \
  __CPROVER_assigns(ret, has_entry, *size, g_t, g_al, __CPROVER_object_whole(&g_node), __CPROVER_object_whole(&g_it)) \
  __CPROVER_loop_invariant(g_t.pending >= 1 && g_t.pending < VP_MAXOBJ && *size == g_t.sum && ret == RCUTILS_RET_OK && g_open == 1 && !g_t.failed && !g_al.failed) \
  __CPROVER_loop_invariant(has_entry == (g_t.more ? 1 : 0) && g_it.entry_name == (g_t.more ? &g_t.name : NULL) && !g_t.used && g_node.path == &g_t.path)
// freeing the list: node i is one of two cells
static size_t g_ln, g_li;
static int g_pfree, g_nfree;
#define CELL(i) ((i) & 1 ? &g_cell1 : &g_cell0)
#define VP_LOOP_free_dir_list_0 \
  __CPROVER_assigns(dir_list, next_dir, g_li, g_pfree, g_nfree, g_al, __CPROVER_object_whole(&g_cell0), __CPROVER_object_whole(&g_cell1)) \
  __CPROVER_loop_invariant(g_li < g_ln && dir_list == CELL(g_li) && g_pfree == 0 && g_nfree == 0) \
  __CPROVER_decreases(g_ln - g_li)
#define VP_BODY_free_dir_list_0 \
  VP_CHECK(dir_list == CELL(g_li), "the next node"); \
  dir_list = CELL(g_li); \
  dir_list->path = (char *)&g_pcell[g_li & 1]; \
  dir_list->next = g_li + 1 < g_ln ? CELL(g_li + 1) : NULL;
static char g_pcell[2];
struct dir_list_t;
extern struct dir_list_t g_node, g_cell0, g_cell1;
extern rcutils_dir_iter_t g_it;
#endif
#include "filesystem.c"

static rcutils_allocator_t vp_any_allocator(bool * bad)
{
  rcutils_allocator_t a = vp_allocator(vp_bool());
  *bad = vp_nd(7) == 1;
  if (*bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  return a;
}

static void st_in(const char * path)
{
  g_stat = vp_one_stat;
  g_st.path = path;
  g_st.fail = vp_bool();
  g_st.link = vp_bool();
  g_st.mode = (mode_t)vp_nd(7) << 13;   // any file type
  switch (vp_nd(7)) {
    case 0: g_st.mode = S_IFDIR; break;
    case 1: g_st.mode = S_IFREG; break;
    case 2: g_st.mode = S_IFLNK; break;
    case 3: g_st.mode = S_IFSOCK; break;
    case 4: g_st.mode = S_IFBLK; break;
    case 5: g_st.mode = S_IFCHR; break;
    case 6: g_st.mode = S_IFIFO; break;
    default: g_st.mode = (mode_t)vp_nd(15) << 12; break;
  }
  g_st.mode |= (mode_t)vp_nd(07777);
  g_st.size = (off_t)vp_nd(INT64_MAX);
}

void h_fs_status(void)
{
  static const char p[] = "/x";
  st_in(vp_nd(7) ? p : NULL);
  bool ok = g_st.path != NULL && !g_st.fail;
  bool r = (g_st.mode & S_IRUSR) != 0, w = (g_st.mode & S_IWUSR) != 0;
  bool dir = (g_st.mode & S_IFMT) == S_IFDIR, reg = (g_st.mode & S_IFMT) == S_IFREG;
  switch (vp_nd(7)) {
    case 0: VP_CHECK(rcutils_is_directory(g_st.path) == (ok && dir), "a directory, by its status"); break;
    case 1: VP_CHECK(rcutils_is_file(g_st.path) == (ok && reg), "a regular file, by its status"); break;
    case 2: VP_CHECK(rcutils_exists(g_st.path) == ok, "it exists if its status can be read"); break;
    case 3: VP_CHECK(rcutils_is_readable(g_st.path) == (ok && r), "readable, by its status"); break;
    case 4: VP_CHECK(rcutils_is_writable(g_st.path) == (ok && w), "writable, by its status"); break;
    case 5: VP_CHECK(rcutils_is_readable_and_writable(g_st.path) == (ok && r && w), "readable and writable, by its status"); break;
    case 6: VP_CHECK(rcutils_get_file_size(g_st.path) == (ok && reg ? (size_t)g_st.size : 0), "the size of a regular file, by its status"); break;
    default: {
        size_t n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 4, 20));
        g_st.cwd_len = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 4, 20));
        g_st.cwd_fail = vp_bool();
        g_w = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 4, 20));
        bool null = vp_bool();
        char * b = null ? NULL : vp_buf(n);
        bool got = rcutils_get_cwd(b, n);
        VP_CHECK(got == (!null && n > 0 && !g_st.cwd_fail && g_st.cwd_len < n), "the directory is given if there is a buffer it fits into");
        if (got) {
          VP_REACH("cwd");
          VP_CHECK(b[g_st.cwd_len] == 0 && VP_IMP(g_w < g_st.cwd_len, b[g_w] == 'w'), "the current directory as the system gives it");
        }
        (free)(b);
        break;
      }
  }
}

void h_fs_mkdir(void)
{
  static char p[4];
  bool null = vp_nd(7) == 1;
  p[0] = vp_bool() ? '/' : vp_char();
  p[1] = vp_char();
  p[2] = vp_char();
  st_in(null ? NULL : p);
  switch (vp_nd(4)) {
    case 0: g_st.mk_errno = 0; break;
    case 1: g_st.mk_errno = EEXIST; break;
    case 2: g_st.mk_errno = ENOENT; break;
    case 3: g_st.mk_errno = EACCES; break;
    default: g_st.mk_errno = (int)vp_nd(132) + 1; break;
  }
  errno = vp_bool() ? EEXIST : (int)vp_nd(132);
  bool r = rcutils_mkdir(g_st.path);
  if (null || p[0] != '/') {
    VP_CHECK(!r && g_st.mk_calls == 0, "only absolute paths are accepted");
  } else {
    VP_CHECK(g_st.mk_calls == 1, "the directory is made once");
    VP_CHECK(r == (g_st.mk_errno == 0 || (g_st.mk_errno == EEXIST && !g_st.fail && (g_st.mode & S_IFMT) == S_IFDIR)), "success for a new or an existing directory");
    if (r) {VP_REACH("made");}
  }
}

#define BIG ((uint64_t)1 << 29)
void h_fs_paths(void)
{
  g_w = (size_t)vp_nd(VP_LIM(3 * BIG, 12, 4000));
  bool bad;
  rcutils_allocator_t a = vp_any_allocator(&bad);
  bool big = vp_nd(3) == 0;
  size_t ln = (size_t)vp_nd(VP_LIM(BIG, 3, big ? 3000 : 6)), rn = (size_t)vp_nd(VP_LIM(BIG, 3, big ? 300 : 6));
  char * l = vp_nd(7) ? vp_input_str(ln, 0) : NULL, * r = vp_nd(7) ? vp_input_str(rn, 1) : NULL;
  char * out;
  size_t len = 0;
  char want = 0;
  int op = (int)vp_nd(2);
  if (op == 0) {
    VP_ASSUME(!bad || l == NULL || r == NULL);
    out = rcutils_join_path(l, r, a);
    VP_CHECK(VP_IMP(l == NULL || r == NULL, out == NULL), "a null part gives null");
    if (out) {
      VP_REACH("joined");
      len = ln + 1 + rn;
      want = g_w < ln ? l[g_w] : g_w == ln ? '/' : g_w < len ? r[g_w - ln - 1] : 0;
    } else {
      VP_CHECK(l == NULL || r == NULL || g_al.failed, "two parts are joined");
    }
  } else if (op == 1) {
    VP_ASSUME(!bad || l == NULL);
    out = rcutils_to_native_path(l, a);
    VP_CHECK(VP_IMP(l == NULL, out == NULL), "a null path gives null");
    if (out) {
      VP_REACH("native");
      len = ln;
      want = g_w < ln ? l[g_w] : 0;
    } else {
      VP_CHECK(l == NULL || g_al.failed, "a path is converted");
    }
  } else {
    VP_ASSUME(!bad || l == NULL);
    size_t hn = (size_t)vp_nd(VP_LIM(BIG, 3, 300));
    char * h = vp_nd(7) ? vp_input_str(hn, 2) : NULL;
    if (l != NULL && ln > 0 && vp_bool()) {l[0] = '~';}
    g_home = h;
    bool tilde = l != NULL && l[0] == '~';
#ifdef VP_PROOF
    VP_ASSUME(VP_IMP(ln > 0 && l != NULL, l[0] != 0));
#endif
    out = rcutils_expand_user(l, a);
    VP_CHECK(VP_IMP(l == NULL || (tilde && h == NULL), out == NULL), "no path or no home directory gives null");
    if (out) {
      VP_REACH("expanded");
      len = tilde ? hn + ln - 1 : ln;
      want = !tilde ? (g_w < ln ? l[g_w] : 0) : g_w < hn ? h[g_w] : g_w < len ? l[g_w - hn + 1] : 0;
    } else {
      VP_CHECK(l == NULL || (tilde && h == NULL) || g_al.failed, "a path is expanded");
    }
    (free)(h);
  }
  if (out) {
    VP_CHECK(g_al.live == 1, "one string is handed out and nothing else stays allocated");
    VP_CHECK(out[len] == 0, "the text ends where it should");
    VP_CHECK(VP_IMP(g_w < len, out[g_w] == want), "every character of the text");
#ifdef VP_NATIVE
    VP_CHECK(strlen(out) == len, "the length of the text");
#endif
    a.deallocate(out, a.state);
  } else {
    VP_CHECK(g_al.live == 0, "nothing stays allocated");
  }
  (free)(l);
  (free)(r);
}

// ---- iteration -----------------------------------------------------------------------------------
static size_t g_n, g_pos;           // entries of the directory; entries read so far
static struct dirent g_de[2];       // entry k is shown in g_de[k & 1]
static char g_dirobj;
static bool g_openfail, g_readfail;
static const char * g_dirpath;
static DIR * it_opendir(const char * p)
{
  VP_CHECK(p == g_dirpath, "the given directory is opened");
  VP_CHECK(g_open == 0, "opened once");
  if (g_openfail) {errno = EACCES; return NULL;}
  g_open++;
  g_pos = 0;
  return (DIR *)&g_dirobj;
}
static struct dirent * it_readdir(DIR * d)
{
  VP_CHECK(d == (DIR *)&g_dirobj && g_open == 1, "the open directory is read");
  if (g_readfail) {errno = EIO; return NULL;}
  if (g_pos >= g_n) {return NULL;}
  g_pos++;
  g_de[(g_pos - 1) & 1].d_name[0] = (char)('a' + (g_pos & 7));
  return &g_de[(g_pos - 1) & 1];
}
static int it_closedir(DIR * d)
{
  VP_CHECK(d == (DIR *)&g_dirobj && g_open == 1, "the open directory is closed, once");
  g_open--;
  return 0;
}
static void it_in(void)
{
  g_opendir = it_opendir;
  g_readdir = it_readdir;
  g_closedir = it_closedir;
  g_n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 3, 6));
  g_dirpath = "d";
}
#define SHOWN(i) ((i)->entry_name == g_de[(g_pos - 1) & 1].d_name)
void h_fs_iter(void)
{
  it_in();
  g_openfail = vp_bool();
  g_readfail = vp_bool();
  bool bad;
  rcutils_allocator_t a = vp_any_allocator(&bad);
  bool null = vp_nd(7) == 1;
  errno = (int)vp_nd(2);
  rcutils_dir_iter_t * i = rcutils_dir_iter_start(null ? NULL : g_dirpath, a);
  if (i == NULL) {
    VP_CHECK(null || bad || g_al.failed || g_openfail || g_readfail, "iteration starts unless something fails");
    VP_CHECK(g_al.live == 0 && g_open == 0, "nothing stays allocated or open");
    VP_CHECK(VP_IMP(null || bad, g_al.calls == 0), "invalid arguments are refused");
    rcutils_dir_iter_end(i);
    VP_CHECK(!rcutils_dir_iter_next(i), "a null iterator has no next entry");
    return;
  }
  VP_CHECK(!null && !bad && !g_openfail && !g_readfail, "no iterator when something failed");
  VP_CHECK(g_open == 1 && i->state != NULL && i->state->dir == (DIR *)&g_dirobj, "the directory is open");
  VP_CHECK(i->allocator.deallocate == a.deallocate && i->allocator.state == a.state && i->allocator.allocate == a.allocate, "the iterator keeps its allocator");
  VP_CHECK(g_n == 0 ? g_pos == 0 && i->entry_name == NULL : g_pos == 1 && SHOWN(i), "the first entry, if there is one");
  VP_REACH("started");
#ifndef VP_PROOF
  for (size_t k = (size_t)vp_nd(7), j = 1; j <= k; ++j) {
    bool r = rcutils_dir_iter_next(i);
    VP_CHECK(r == (j < g_n), "another entry exactly while there is one");
    VP_CHECK(r ? g_pos == j + 1 && SHOWN(i) : i->entry_name == NULL, "the next entry in the order of the system");
  }
#endif
  rcutils_dir_iter_end(i);
  VP_CHECK(g_al.live == 0 && g_open == 0, "everything is released at the end");
  rcutils_dir_iter_t none = {0};
  none.allocator = a;
  VP_CHECK(!rcutils_dir_iter_next(&none), "an iterator without state has no next entry");
}

#ifdef VP_PROOF
// one step from any state of an iteration
void h_fs_next(void)
{
  it_in();
  rcutils_allocator_t a = vp_allocator(false);
  static rcutils_dir_iter_t it;
  rcutils_dir_iter_state_t s;
  s.dir = (DIR *)&g_dirobj;
  it.state = vp_bool() ? &s : NULL;
  it.allocator = a;
  it.entry_name = (char *)(uintptr_t)vp_nd(1);
  g_open = 1;
  g_pos = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(g_pos <= g_n);
  size_t was = g_pos;
  errno = (int)vp_nd(132);
  bool r = rcutils_dir_iter_next(&it);
  if (it.state == NULL) {
    VP_CHECK(!r && g_pos == was, "an iterator without state has no next entry");
  } else if (was < g_n) {
    VP_REACH("next");
    VP_CHECK(r && g_pos == was + 1 && SHOWN(&it), "the next entry in the order of the system");
  } else {
    VP_CHECK(!r && g_pos == was && it.entry_name == NULL, "no more entries");
  }
  VP_CHECK(g_open == 1, "the directory stays open");
}

// ---- directory size ------------------------------------------------------------------------------
struct dir_list_t g_node, g_cell0, g_cell1;
rcutils_dir_iter_t g_it;

// one entry of a directory at any depth
static size_t g_pl, g_fl;        // lengths of the directory's path and of the entry's name
static char * g_pp, * g_fp;
static int ck_stat(const char * p, struct stat * b, bool link)
{
  VP_CHECK(p != NULL && p == g_sfout, "the status of the entry's path is read");
  VP_CHECK(p[g_pl + 1 + g_fl] == 0, "the path is that of the directory and the name of the entry");
  VP_CHECK(VP_IMP(g_w <= g_pl + g_fl, p[g_w] == (g_w < g_pl ? g_pp[g_w] : g_w == g_pl ? '/' : g_fp[g_w - g_pl - 1])), "every character of the entry's path");
  g_st.path = p;
  return vp_one_stat(p, b, link);
}
void h_fs_check(void)
{
  rcutils_allocator_t a = vp_allocator(vp_bool());
  g_w = (size_t)vp_nd(UINT64_MAX);
  g_pl = (size_t)vp_nd(BIG);
  g_fl = (size_t)vp_nd(BIG);
  g_pp = vp_input_str(g_pl, 0);
  g_fp = vp_input_str(g_fl, 1);
  VP_ASSUME(VP_IMP(g_fl > 0, g_fp[0] != 0) && VP_IMP(g_fl > 1, g_fp[1] != 0) && VP_IMP(g_fl > 2, g_fp[2] != 0));
  st_in(NULL);
  g_stat = ck_stat;
  dir_list_t head, other;
  bool more = vp_bool();
  head.path = g_pp;
  head.depth = (uint32_t)vp_nd(UINT32_MAX - 1);
  head.next = more ? &other : NULL;
  dir_list_t was = head;
  size_t max = (size_t)vp_nd(UINT64_MAX);
  uint64_t sum = vp_nd(UINT64_MAX), sum0 = sum;
  rcutils_ret_t r = check_and_calculate_size(g_fp, &sum, max, &head, a);
  bool dot = (g_fl == 1 && g_fp[0] == '.') || (g_fl == 2 && g_fp[0] == '.' && g_fp[1] == '.');
  bool skip = dot || g_st.fail || g_st.link;
  bool dir = !skip && (g_st.mode & S_IFMT) == S_IFDIR, reg = !skip && (g_st.mode & S_IFMT) == S_IFREG;
  VP_CHECK(head.path == was.path && head.depth == was.depth, "the directory itself stays in the list");
  VP_CHECK(r == (g_al.failed ? RCUTILS_RET_BAD_ALLOC : RCUTILS_RET_OK), "it fails only when memory runs out");
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(sum == sum0 && head.next == was.next && g_al.live == 0, "nothing is counted and nothing stays allocated");
    return;
  }
  VP_CHECK(sum == sum0 + (reg ? (uint64_t)g_st.size : 0), "a regular file adds its size, anything else nothing");
  if (dir && (max == 0 || head.depth < max)) {
    VP_REACH("subdirectory");
    VP_CHECK(head.next != was.next && head.next != NULL && head.next->next == was.next, "a subdirectory within the depth limit is added to the list");
    VP_CHECK(head.next->depth == head.depth + 1 && head.next->path == g_sfout && g_al.live == 2, "with its path and depth");
  } else {
    VP_REACH("counted");
    VP_CHECK(head.next == was.next && g_al.live == 0, "nothing else is added to the list, and nothing stays allocated");
  }
}

#ifdef FS_WALK
static void * fw_zero(size_t k, size_t n, void * state)
{
  VP_CHECK(k * n == sizeof(dir_list_t) && state == &g_al_state, "a list node is allocated");
  if (vp_al_refuse(k * n)) {return NULL;}
  g_al.live++;
  g_node.path = NULL;
  g_node.depth = 0;
  g_node.next = NULL;
  return &g_node;
}
static void fw_free(void * p, void * state)
{
  VP_CHECK(p == &g_node && state == &g_al_state && g_t.pending == 0, "only the list node is given back");
  g_al.live--;
}
// a copy of the path is represented by the path itself; from here on there is one pending directory
static char * fw_strdup(const char * s)
{
  VP_CHECK(s == &g_t.path, "the directory's path is copied");
  if (vp_al_refuse(1)) {return NULL;}
  g_t.pending = 1;
  return &g_t.path;
}
static bool contract_isdir(const char * p)
__CPROVER_requires(p == &g_t.path)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == g_isdir)
;
static rcutils_dir_iter_t * contract_start(const char * p, const rcutils_allocator_t al)
__CPROVER_requires(p == g_node.path && p == &g_t.path && g_open == 0 && al.state == &g_al_state)
__CPROVER_assigns(g_open, g_t.more, g_t.used, g_t.failed, __CPROVER_object_whole(&g_it))
__CPROVER_ensures(!g_t.used)
__CPROVER_ensures(g_t.failed ? __CPROVER_return_value == NULL && g_open == 0 : __CPROVER_pointer_equals(__CPROVER_return_value, &g_it) && g_open == 1)
__CPROVER_ensures(g_it.entry_name == (g_t.more ? &g_t.name : NULL))
;
static bool contract_next(rcutils_dir_iter_t * i)
__CPROVER_requires(i == &g_it && g_open == 1 && (g_t.used || !g_t.more))
__CPROVER_assigns(g_t.more, g_t.used, __CPROVER_object_whole(&g_it))
__CPROVER_ensures(g_t.used == false && __CPROVER_return_value == (g_t.more ? 1 : 0))
__CPROVER_ensures(VP_IMP(!__CPROVER_old(g_t.more), !g_t.more))
__CPROVER_ensures(g_it.entry_name == (g_t.more ? &g_t.name : NULL))
;
static void contract_end(rcutils_dir_iter_t * i)
__CPROVER_requires(i == NULL || (i == &g_it && g_open == 1 && (!g_t.more || g_t.failed)))
__CPROVER_assigns(g_open)
__CPROVER_ensures(g_open == 0)
;
static size_t g_max;
static uint64_t * g_size;
static rcutils_ret_t contract_check(const char * f, uint64_t * s, const size_t max, dir_list_t * l, rcutils_allocator_t al)
__CPROVER_requires(f != NULL && f == &g_t.name && g_t.more && !g_t.used && s == g_size && *s == g_t.sum && max == g_max && l == &g_node && g_t.pending >= 1 && al.state == &g_al_state && g_open == 1)
__CPROVER_assigns(*s, g_t.sum, g_t.used, g_t.failed, g_t.pending, g_node.next)
__CPROVER_ensures(g_t.used && *s == g_t.sum && g_t.pending >= __CPROVER_old(g_t.pending) && g_t.pending < VP_MAXOBJ)
__CPROVER_ensures(g_t.failed == (__CPROVER_return_value != RCUTILS_RET_OK))
;
static void contract_remove(dir_list_t ** l, rcutils_allocator_t al)
__CPROVER_requires(*l == &g_node && g_t.pending >= 1 && g_open == 0 && al.state == &g_al_state)
__CPROVER_assigns(*l, g_t.pending, __CPROVER_object_whole(&g_node))
__CPROVER_ensures(g_t.pending == __CPROVER_old(g_t.pending) - 1)
__CPROVER_ensures(g_t.pending == 0 ? *l == NULL : __CPROVER_pointer_equals(*l, &g_node))
__CPROVER_ensures(__CPROVER_pointer_equals(g_node.path, &g_t.path))
;
static void contract_free(dir_list_t * l, rcutils_allocator_t al)
__CPROVER_requires(l == &g_node && g_t.pending >= 1 && al.state == &g_al_state)
__CPROVER_assigns(g_t.pending)
__CPROVER_ensures(g_t.pending == 0)
;
void h_fs_walk(void)
{
  bool bad = vp_bool();
  rcutils_allocator_t a = vp_allocator(vp_bool());
  a.zero_allocate = fw_zero;
  a.deallocate = fw_free;
  if (bad) {a.reallocate = NULL;}
  struct {uint64_t size, sum0; bool isdir;} in;
  uint64_t size = in.size;
  g_isdir = vp_bool();
  g_t.failed = false;
  g_size = &size;
  bool null = vp_bool(), nulls = vp_bool();
  rcutils_ret_t r;
  g_s0.base = &g_t.path;
  g_s0.len = 0;
  if (vp_bool()) {
    g_max = (size_t)vp_nd(UINT64_MAX);
    r = rcutils_calculate_directory_size_with_recursion(null ? NULL : &g_t.path, g_max, nulls ? NULL : &size, a);
  } else {
    g_max = 1;
    r = rcutils_calculate_directory_size(null ? NULL : &g_t.path, nulls ? NULL : &size, a);
  }
  if (null || nulls || (g_isdir && bad)) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "invalid arguments are refused");
  } else if (!g_isdir) {
    VP_CHECK(r == RCUTILS_RET_ERROR, "only directories have a size");
  } else if (r == RCUTILS_RET_OK) {
    VP_REACH("counted");
    VP_CHECK(size == g_t.sum, "the size is the sum of what every entry adds");
    VP_CHECK(!g_t.failed && !g_al.failed, "it succeeds only if nothing failed");
  } else {
    VP_REACH("failed");
    VP_CHECK(g_t.failed || g_al.failed, "it fails only if something failed");
  }
  VP_CHECK(g_t.pending == 0 && g_open == 0, "nothing stays allocated or open");
}
#endif

#ifdef FS_LIST
static void fl_free(void * p, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (p == (void *)&g_pcell[g_li & 1]) {
    VP_CHECK(g_pfree == 0, "a path is freed once");
    g_pfree++;
  } else {
    VP_CHECK(p == CELL(g_li) && g_nfree == 0, "a node is freed once");
    g_nfree++;
  }
  if (g_pfree == 1 && g_nfree == 1) {
    struct dir_list_t any;
    if (g_li & 1) {g_cell1 = any;} else {g_cell0 = any;}
    g_li++;
    g_pfree = g_nfree = 0;
  }
}
void h_fs_list(void)
{
  rcutils_allocator_t a = vp_allocator(false);
  a.deallocate = fl_free;
  g_ln = (size_t)vp_nd(VP_MAXOBJ) + 1;
  if (vp_bool()) {
    free_dir_list(&g_cell0, a);
    VP_CHECK(g_li == g_ln && g_pfree == 0 && g_nfree == 0, "every node and every path is freed");
  } else {
    dir_list_t * l = &g_cell0;
    g_cell0.next = g_ln > 1 ? &g_cell1 : NULL;
    g_cell0.path = &g_pcell[0];
    remove_first_dir_from_list(&l, a);
    VP_CHECK(l == (g_ln > 1 ? &g_cell1 : NULL) && g_li == 1, "the first node is freed, with its path, and the rest stays");
  }
}
#endif
#else
void h_fs_tree(void);
#endif

#ifdef VP_NATIVE
#define NN 9
static struct {int parent; char name[2200]; mode_t mode; uint64_t size; bool link, gone;} tn[NN];
static int tnn;
static bool dots_last;
static struct tdir {int node, pos; struct dirent de; bool open;} tdirs[3];
static void tpath(int i, char * out)
{
  if (i == 0) {strcpy(out, tn[0].name); return;}
  tpath(tn[i].parent, out);
  strcat(out, "/");
  strcat(out, tn[i].name);
}
static int tfind(const char * p)
{
  char b[6000];
  for (int i = 0; i < tnn; ++i) {
    tpath(i, b);
    if (strcmp(b, p) == 0) {return i;}
  }
  return -1;
}
static int t_stat(const char * p, struct stat * b, bool link)
{
  int i = p ? tfind(p) : -1;
  VP_CHECK(i >= 0, "only the directory and its entries are looked at");
  if (tn[i].gone) {errno = ENOENT; return -1;}
  memset(b, 0, sizeof *b);
  b->st_mode = link && tn[i].link ? S_IFLNK | 0777 : tn[i].mode;
  b->st_size = link && tn[i].link ? 5 : (off_t)tn[i].size;
  return 0;
}
static DIR * t_opendir(const char * p)
{
  int i = tfind(p);
  VP_CHECK(i >= 0 && !tn[i].link && !tn[i].gone && S_ISDIR(tn[i].mode), "only directories are opened, and links are not followed");
  if (g_openfail && vp_bool()) {g_al.failed = true; errno = EMFILE; return NULL;}
  for (int k = 0; k < 3; ++k) {
    if (!tdirs[k].open) {
      tdirs[k].open = true;
      tdirs[k].node = i;
      tdirs[k].pos = 0;
      g_open++;
      return (DIR *)&tdirs[k];
    }
  }
  VP_CHECK(0, "few directories are open at a time");
  return NULL;
}
static struct dirent * t_readdir(DIR * dd)
{
  struct tdir * d = (struct tdir *)dd;
  VP_CHECK(d->open, "an open directory is read");
  int seen = 0;
  memset(d->de.d_name, 'Z', 20);
  int pos = d->pos++;
  if (!dots_last) {pos -= 2;}
  if (pos < 0) {strcpy(d->de.d_name, pos == -2 ? "." : ".."); return &d->de;}
  for (int i = 1; i < tnn; ++i) {
    if (tn[i].parent == d->node && seen++ == pos) {strcpy(d->de.d_name, tn[i].name); return &d->de;}
  }
  if (dots_last && pos - seen < 2 && tnn % 2) {strcpy(d->de.d_name, pos == seen ? "." : ".."); return &d->de;}
  return NULL;
}
static int t_closedir(DIR * dd)
{
  struct tdir * d = (struct tdir *)dd;
  VP_CHECK(d->open, "an open directory is closed");
  d->open = false;
  g_open--;
  return 0;
}
static uint64_t tsum(int i, size_t depth, size_t max)
{
  uint64_t s = 0;
  for (int j = 1; j < tnn; ++j) {
    if (tn[j].parent != i || tn[j].link || tn[j].gone) {continue;}
    if (S_ISREG(tn[j].mode)) {s += tn[j].size;}
    if (S_ISDIR(tn[j].mode) && (max == 0 || depth + 1 <= max)) {s += tsum(j, depth + 1, max);}
  }
  return s;
}
void h_fs_tree(void)
{
  static const char * const names[] = {"a", "b", ".c", "..d", "...", "a.b", "-", "~", "%s"};
  g_stat = t_stat;
  g_opendir = t_opendir;
  g_readdir = t_readdir;
  g_closedir = t_closedir;
  bool bad, null = vp_nd(15) == 1, nulls = vp_nd(15) == 1;
  rcutils_allocator_t a = vp_any_allocator(&bad);
  if (vp_nd(3)) {g_al.may_fail = false;}
  g_openfail = g_al.may_fail;
  tnn = 1 + (int)vp_nd(NN - 1);
  dots_last = vp_bool();
  size_t rl = vp_nd(7) ? (size_t)vp_nd(3) + 1 : 2030 + (size_t)vp_nd(25);
  memset(tn[0].name, 'r', rl);
  tn[0].name[0] = '/';
  tn[0].name[rl] = 0;
  tn[0].mode = vp_nd(15) ? S_IFDIR : S_IFREG;
  for (int i = 1; i < tnn; ++i) {
    do {
      tn[i].parent = (int)vp_nd((uint64_t)i - 1);
      if (vp_bool()) {tn[i].parent = i - 1;}
    } while (!S_ISDIR(tn[tn[i].parent].mode) && tn[i].parent != 0);
    strcpy(tn[i].name, names[i]);
    switch (vp_nd(5)) {
      case 0: case 1: tn[i].mode = S_IFDIR; break;
      case 2: case 3: tn[i].mode = S_IFREG; break;
      case 4: tn[i].mode = vp_bool() ? S_IFBLK : S_IFSOCK; break;
      default: tn[i].mode = vp_bool() ? S_IFDIR : S_IFREG; tn[i].link = vp_bool(); tn[i].gone = !tn[i].link || vp_bool(); break;
    }
    tn[i].size = vp_bool() ? vp_nd((uint64_t)1 << 40) : vp_nd(3);
  }
  char p[2200];
  strcpy(p, tn[0].name);
  size_t max = 1;
  uint64_t size = vp_nd(UINT64_MAX);
  rcutils_ret_t r;
  if (vp_nd(3) == 0) {
    r = rcutils_calculate_directory_size(null ? NULL : p, nulls ? NULL : &size, a);
  } else {
    max = (size_t)vp_nd(5);
    if (vp_nd(15) == 0) {max = (size_t)UINT32_MAX + (size_t)vp_nd(3);}
    r = rcutils_calculate_directory_size_with_recursion(null ? NULL : p, max, nulls ? NULL : &size, a);
  }
  if (null || nulls || (bad && S_ISDIR(tn[0].mode))) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "invalid arguments are refused");
  } else if (!S_ISDIR(tn[0].mode)) {
    VP_CHECK(r == RCUTILS_RET_ERROR, "only directories have a size");
  } else if (r != RCUTILS_RET_OK) {
    VP_CHECK(g_al.failed, "it fails only if something failed");
  } else {
    VP_CHECK(size == tsum(0, 1, max), "the sum of the sizes of the regular files down to the depth limit");
  }
  VP_CHECK(g_al.live == 0 && g_open == 0, "nothing stays allocated or open");
}
#elif !defined(VP_PROOF)
void h_fs_tree(void) {}
#endif
