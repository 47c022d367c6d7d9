"""Writes src/fshim.F90: bind(C) entry points that call the Fortran module bml."""
P = {"single_real": ("real(C_FLOAT)", "BML_ELEMENT_REAL", "C_FLOAT"), "double_real": ("real(C_DOUBLE)", "BML_ELEMENT_REAL", "C_DOUBLE"),
     "single_complex": ("complex(C_FLOAT_COMPLEX)", "BML_ELEMENT_COMPLEX", "C_FLOAT_COMPLEX"), "double_complex": ("complex(C_DOUBLE_COMPLEX)", "BML_ELEMENT_COMPLEX", "C_DOUBLE_COMPLEX")}
out = ["""! Generated by tools/mkfshim.py: calls the Fortran interface from C.
module fshim
  use iso_c_binding
  use bml
  implicit none
contains
  function tstr(t) result(s)
    integer(C_INT), intent(in) :: t
    character(len=20) :: s
    select case(t)
    case(1)
      s = BML_MATRIX_DENSE
    case(2)
      s = BML_MATRIX_ELLPACK
    case(3)
      s = BML_MATRIX_ELLBLOCK
    case default
      s = BML_MATRIX_CSR
    end select
  end function tstr
  function estr(p) result(s)
    integer(C_INT), intent(in) :: p
    character(len=20) :: s
    if (p <= 2) then
      s = BML_ELEMENT_REAL
    else
      s = BML_ELEMENT_COMPLEX
    end if
  end function estr
  function ekind(p) result(k)
    integer(C_INT), intent(in) :: p
    integer :: k
    select case(p)
    case(1)
      k = C_FLOAT
    case(2)
      k = C_DOUBLE
    case(3)
      k = C_FLOAT_COMPLEX
    case default
      k = C_DOUBLE_COMPLEX
    end select
  end function ekind
  function mstr(d) result(s)
    integer(C_INT), intent(in) :: d
    character(len=20) :: s
    select case(d)
    case(0)
      s = BML_DMODE_SEQUENTIAL
    case(1)
      s = BML_DMODE_DISTRIBUTED
    case default
      s = BML_DMODE_GRAPH_DISTRIBUTED
    end select
  end function mstr
  function fname(cstr) result(s)
    character(C_CHAR), intent(in) :: cstr(*)
    character(len=300) :: s
    integer :: k
    s = ' '
    k = 1
    do while (cstr(k) /= C_NULL_CHAR)
      s(k:k) = cstr(k)
      k = k + 1
    end do
  end function fname
"""]
def sub(name, args, decls, body, res=None):
    h = ("function" if res else "subroutine") + " fx_%s(%s) bind(C, name='fx_%s')%s" % (name, args, name, " result(res)" if res else "")
    out.append("  " + h + "\n" + "\n".join("    " + d for d in decls.strip().split("\n")) + ("\n    %s :: res" % res if res else "") + "\n" + "\n".join("    " + b for b in body.strip().split("\n")) + "\n  end %s fx_%s\n" % ("function" if res else "subroutine", name))
I = lambda *n: "integer(C_INT), value :: " + ", ".join(n) + "\n"
D = lambda *n: "real(C_DOUBLE), value :: " + ", ".join(n) + "\n"
PT = lambda *n: "type(C_PTR), value :: " + ", ".join(n) + "\n"
IA = lambda *n: "".join("integer(C_INT) :: %s(*)\n" % x for x in n)
M = lambda *n: "type(bml_matrix_t) :: " + ", ".join(n) + "\n"
def mats(*n): return "".join("m%s%%ptr = %s\n" % (x, x) for x in n)
# constructors: dm < 0 means "argument absent"; old is a matrix that the call has to release
for k in ("zero", "noinit", "banded", "random", "identity"):
    sub(k, "t, p, n, m, dm, old", I("t", "p", "n", "m", "dm") + PT("old") + M("a"), """a%%ptr = old
if (dm < 0) then
  call bml_%s_matrix(trim(tstr(t)), trim(estr(p)), ekind(p), n, m, a)
else
  call bml_%s_matrix(trim(tstr(t)), trim(estr(p)), ekind(p), n, m, a, trim(mstr(dm)))
end if
res = a%%ptr""" % (k, k), "type(C_PTR)")
sub("block", "t, p, nb, mb, m, bs, dm, old", I("t", "p", "nb", "mb", "m", "dm") + PT("old") + "integer(C_INT) :: bs(nb)\ninteger, allocatable :: b(:)\n" + M("a"), """a%ptr = old
allocate(b(nb))
b = bs
if (dm < 0) then
  call bml_block_matrix(trim(tstr(t)), trim(estr(p)), ekind(p), nb, mb, m, b, a)
else
  call bml_block_matrix(trim(tstr(t)), trim(estr(p)), ekind(p), nb, mb, m, b, a, trim(mstr(dm)))
end if
res = a%ptr""", "type(C_PTR)")
sub("bad", "k, n", I("k", "n") + "real(C_DOUBLE), allocatable :: d(:,:)\n" + M("a"), """allocate(d(n, n))
d = 1
select case(k)
case(0)
  call bml_zero_matrix("sparse", BML_ELEMENT_REAL, C_DOUBLE, n, n, a)
case(1)
  call bml_zero_matrix(BML_MATRIX_DENSE, "quaternion", C_DOUBLE, n, n, a)
case(2)
  call bml_zero_matrix(BML_MATRIX_ELLPACK, BML_ELEMENT_REAL, 16, n, n, a)
case(3)
  call bml_identity_matrix(BML_MATRIX_DENSE, BML_ELEMENT_COMPLEX, 2, n, n, a)
case(4)
  call bml_noinit_matrix(BML_MATRIX_CSR, BML_ELEMENT_REAL, C_DOUBLE, n, n, a, "scattered")
case(5)
  call bml_import_from_dense(BML_MATRIX_ELLPACK, d, a)
case(6)
  call bml_import_from_dense("", d, a, m=n)
case default
  call bml_random_matrix(BML_MATRIX_ELLBLOCK, "", C_FLOAT, n, n, a)
end select""")
sub("deallocate", "a", "type(C_PTR) :: a\n" + M("ma"), "ma%ptr = a\ncall bml_deallocate(ma)\na = ma%ptr")
sub("clear", "a", PT("a") + M("ma"), mats("a") + "call bml_clear(ma)")
sub("allocated", "a", PT("a") + M("ma"), mats("a") + "res = merge(1, 0, bml_allocated(ma))", "integer(C_INT)")
for k in ("add", "add_deprecated"):
    ar = "ma, mb, alpha, beta" if k == "add" else "alpha, ma, beta, mb"
    sub(k, "a, b, alpha, beta, thr, has", PT("a", "b") + D("alpha", "beta", "thr") + I("has") + M("ma", "mb"), mats("a", "b") + "if (has /= 0) then\n  call bml_%s(%s, thr)\nelse\n  call bml_%s(%s)\nend if" % (k, ar, k, ar))
sub("add_norm", "a, b, alpha, beta, thr, has", PT("a", "b") + D("alpha", "beta", "thr") + I("has") + M("ma", "mb"), mats("a", "b") + "if (has /= 0) then\n  res = bml_add_norm(ma, mb, alpha, beta, thr)\nelse\n  res = bml_add_norm(ma, mb, alpha, beta)\nend if", "real(C_DOUBLE)")
sub("add_identity", "a, beta, thr", PT("a") + D("beta", "thr") + M("ma"), mats("a") + "call bml_add_identity(ma, beta, thr)")
sub("scale_add_identity", "a, alpha, beta, thr", PT("a") + D("alpha", "beta", "thr") + M("ma"), mats("a") + "call bml_scale_add_identity(ma, alpha, beta, thr)")
sub("multiply", "a, b, c, alpha, beta, thr, has", PT("a", "b", "c") + D("alpha", "beta", "thr") + I("has") + M("ma", "mb", "mc"), mats("a", "b", "c") +
    "select case(has)\n" + "".join("case(%d)\n  call bml_multiply(ma, mb, mc%s%s%s)\n" % (k, ", alpha=alpha" if k & 1 else "", ", beta=beta" if k & 2 else "", ", threshold=thr" if k & 4 else "") for k in range(8)) + "end select")
sub("element_multiply", "a, b, c, thr, has", PT("a", "b", "c") + D("thr") + I("has") + M("ma", "mb", "mc"), mats("a", "b", "c") + "if (has /= 0) then\n  call bml_element_multiply_AB(ma, mb, mc, thr)\nelse\n  call bml_element_multiply_AB(ma, mb, mc)\nend if")
sub("multiply_x2", "a, b, thr, has, pre, trc", PT("a", "b") + D("thr") + I("has", "pre") + "real(C_DOUBLE) :: trc(2)\ndouble precision, allocatable :: t(:)\n" + M("ma", "mb"), mats("a", "b") + "if (pre > 0) allocate(t(pre))\nif (has /= 0) then\n  call bml_multiply_x2(ma, mb, thr, t)\nelse\n  call bml_multiply_x2(ma, mb, trace=t)\nend if\nif (size(t) /= 2) error stop 'trace array has a wrong size'\ntrc = t")
sub("copy", "a, b", PT("a", "b") + M("ma", "mb"), mats("a", "b") + "call bml_copy(ma, mb)")
for k in ("copy_new", "transpose", "inverse"):
    sub(k, "a, old", PT("a", "old") + M("ma", "mb"), mats("a") + "mb%%ptr = old\ncall bml_%s(ma, mb)\nres = mb%%ptr" % k, "type(C_PTR)")
sub("reorder", "a, perm", PT("a") + IA("perm") + M("ma"), mats("a") + "call bml_reorder(ma, perm)")
sub("save_domain", "a", PT("a") + M("ma"), mats("a") + "call bml_save_domain(ma)")
sub("restore_domain", "a", PT("a") + M("ma"), mats("a") + "call bml_restore_domain(ma)")
sub("transpose_triangle", "a, tri", PT("a") + "integer(C_INT), value :: tri\ncharacter(C_CHAR) :: ch\n" + M("ma"), mats("a") + "ch = achar(tri)\ncall bml_transpose_triangle(ma, ch)")
sub("adjungate_triangle", "a, tri", PT("a") + "integer(C_INT), value :: tri\ncharacter(C_CHAR) :: ch\n" + M("ma"), mats("a") + "ch = achar(tri)\ncall bml_adjungate_triangle(ma, ch)")
sub("threshold", "a, thr", PT("a") + D("thr") + M("ma"), mats("a") + "call bml_threshold(ma, thr)")
for k in ("trace", "sum_squares", "fnorm"): sub(k, "a", PT("a") + M("ma"), mats("a") + "res = bml_%s(ma)" % k, "real(C_DOUBLE)")
for k in ("trace_mult", "fnorm2"): sub(k, "a, b", PT("a", "b") + M("ma", "mb"), mats("a", "b") + "res = bml_%s(ma, mb)" % k, "real(C_DOUBLE)")
sub("sum_squares_submatrix", "a, k", PT("a") + I("k") + M("ma"), mats("a") + "res = bml_sum_squares_submatrix(ma, k)", "real(C_DOUBLE)")
sub("sum_AB", "a, b, alpha, thr", PT("a", "b") + D("alpha", "thr") + M("ma", "mb"), mats("a", "b") + "res = bml_sum_AB(ma, mb, alpha, thr)", "real(C_DOUBLE)")
sub("sum_squares2", "a, b, alpha, beta, thr", PT("a", "b") + D("alpha", "beta", "thr") + M("ma", "mb"), mats("a", "b") + "res = bml_sum_squares2(ma, mb, alpha, beta, thr)", "real(C_DOUBLE)")
sub("normalize", "a, lo, hi", PT("a") + D("lo", "hi") + M("ma"), mats("a") + "call bml_normalize(ma, lo, hi)")
sub("gershgorin", "a, pre, r", PT("a") + I("pre") + "real(C_DOUBLE) :: r(2)\ndouble precision, allocatable :: t(:)\n" + M("ma"), mats("a") + "if (pre > 0) allocate(t(pre))\ncall bml_gershgorin(ma, t)\nif (size(t) /= 2) error stop 'bound array has a wrong size'\nr = t")
sub("gershgorin_partial", "a, k, pre, r", PT("a") + I("k", "pre") + "real(C_DOUBLE) :: r(2)\ndouble precision, allocatable :: t(:)\n" + M("ma"), mats("a") + "if (pre > 0) allocate(t(pre))\ncall bml_gershgorin_partial(ma, t, k)\nif (size(t) /= 2) error stop 'bound array has a wrong size'\nr = t")
for k in ("get_N", "get_M", "get_precision", "get_bandwidth"): sub(k, "a", PT("a") + M("ma"), mats("a") + "res = bml_%s(ma)" % k, "integer(C_INT)")
sub("get_element_precision", "a", PT("a") + M("ma"), mats("a") + "res = bml_get_element_precision(ma)", "integer(C_INT)")
sub("get_row_bandwidth", "a, i", PT("a") + I("i") + M("ma"), mats("a") + "res = bml_get_row_bandwidth(ma, i)", "integer(C_INT)")
sub("get_sparsity", "a, thr", PT("a") + D("thr") + M("ma"), mats("a") + "res = bml_get_sparsity(ma, thr)", "real(C_DOUBLE)")
for k in ("get_type", "get_deep_type", "get_element_type", "get_distribution_mode"):
    sub(k, "a, s", PT("a") + "character(C_CHAR) :: s(21)\ncharacter(20) :: r\ninteger :: k\n" + M("ma"), mats("a") + "r = bml_%s(ma)\ndo k = 1, 20\n  s(k) = r(k:k)\nend do\ns(21) = C_NULL_CHAR" % k)
for k in ("read", "write"): sub(k, "a, cstr", PT("a") + "character(C_CHAR) :: cstr(*)\n" + M("ma"), mats("a") + "call bml_%s_matrix(ma, trim(fname(cstr)))" % k)
sub("matrix2submatrix_index", "a, b, nodes, ns, idx, vs, flag, graph", PT("a", "b") + IA("nodes", "idx", "vs") + I("ns", "flag", "graph") + M("ma", "mb"), mats("a", "b") + "if (graph /= 0) then\n  call bml_matrix2submatrix_index(mb, nodes, ns, idx, vs, flag /= 0)\nelse\n  call bml_matrix2submatrix_index(mb, nodes, ns, idx, vs, flag /= 0, ma)\nend if")
sub("matrix2submatrix", "a, b, idx, ls", PT("a", "b") + IA("idx") + I("ls") + M("ma", "mb"), mats("a", "b") + "call bml_matrix2submatrix(ma, mb, idx, ls)")
sub("submatrix2matrix", "a, b, idx, ls, lls, thr, has", PT("a", "b") + IA("idx") + I("ls", "lls", "has") + D("thr") + M("ma", "mb"), mats("a", "b") + "if (has /= 0) then\n  call bml_submatrix2matrix(ma, mb, idx, ls, lls, thr)\nelse\n  call bml_submatrix2matrix(ma, mb, idx, ls, lls)\nend if")
sub("adjacency", "a, xadj, adj, base", PT("a") + IA("xadj", "adj") + I("base") + M("ma"), mats("a") + "call bml_adjacency(ma, xadj, adj, base)")
sub("adjacency_group", "a, h, nn, xadj, adj, base", PT("a") + IA("h", "xadj", "adj") + I("nn", "base") + M("ma"), mats("a") + "call bml_adjacency_group(ma, h, nn, xadj, adj, base)")
sub("group_matrix", "a, h, ng, thr, old", PT("a", "old") + IA("h") + I("ng") + D("thr") + M("ma", "mb"), mats("a") + "mb%ptr = old\ncall bml_group_matrix(ma, mb, h, ng, thr)\nres = mb%ptr", "type(C_PTR)")
sub("diagonalize", "a, w, v", PT("a", "v") + "real(C_DOUBLE) :: w(*)\n" + M("ma", "mv"), mats("a", "v") + "call bml_diagonalize(ma, w, mv)")
sub("ranks", "r", "integer(C_INT) :: r(2)\n", "r(1) = bml_getNRanks()\nr(2) = bml_getMyRank()")
sub("print", "a, il, iu, jl, ju", PT("a") + I("il", "iu", "jl", "ju") + M("ma"), mats("a") + "call bml_print_matrix('tag', ma, il, iu, jl, ju)\nflush(6)")
for p, (ty, el, kd) in P.items():
    ar = lambda *n: "".join("%s :: %s(*)\n" % (ty, x) for x in n)
    sub("set_element_" + p, "a, i, j, v", PT("a") + I("i", "j") + "%s :: v\n" % ty + M("ma"), mats("a") + "call bml_set_element(ma, i, j, v)")
    sub("set_element_new_" + p, "a, i, j, v", PT("a") + I("i", "j") + "%s :: v\n" % ty + M("ma"), mats("a") + "call bml_set_element_new(ma, i, j, v)")
    # has: 1 threshold given; st: stride between elements of the array handed over
    sub("set_row_" + p, "a, i, n, r, thr, has, st", PT("a") + I("i", "n", "has", "st") + D("thr") + "%s :: r(*)\n%s, allocatable :: big(:)\n" % (ty, ty) + M("ma"), mats("a") + "allocate(big(n * st))\nbig = -77\nbig(1:n*st:st) = r(1:n)\nif (has /= 0) then\n  call bml_set_row(ma, i, big(1:n*st:st), thr)\nelse\n  call bml_set_row(ma, i, big(1:n*st:st))\nend if")
    sub("set_diagonal_" + p, "a, n, r, thr, has, st", PT("a") + I("n", "has", "st") + D("thr") + "%s :: r(*)\n%s, allocatable :: big(:)\n" % (ty, ty) + M("ma"), mats("a") + "allocate(big(n * st))\nbig = -77\nbig(1:n*st:st) = r(1:n)\nif (has /= 0) then\n  call bml_set_diagonal(ma, big(1:n*st:st), thr)\nelse\n  call bml_set_diagonal(ma, big(1:n*st:st))\nend if")
    sub("get_row_" + p, "a, i, n, pre, r", PT("a") + I("i", "n", "pre") + "%s :: r(n)\n%s, allocatable :: t(:)\n" % (ty, ty) + M("ma"), mats("a") + "if (pre > 0) allocate(t(pre))\ncall bml_get_row(ma, i, t)\nif (size(t) /= n) error stop 'row has a wrong size'\nr = t")
    sub("get_diagonal_" + p, "a, n, pre, r", PT("a") + I("n", "pre") + "%s :: r(n)\n%s, allocatable :: t(:)\n" % (ty, ty) + M("ma"), mats("a") + "if (pre > 0) allocate(t(pre))\ncall bml_get_diagonal(ma, t)\nif (size(t) /= n) error stop 'diagonal has a wrong size'\nr = t")
    sub("get_element_" + p, "a, i, j, v", PT("a") + I("i", "j") + "%s :: v\n" % ty + M("ma"), mats("a") + "call bml_get_element(v, ma, i, j)")
    sub("scale1_" + p, "al, a", "%s :: al\n" % ty + PT("a") + M("ma"), mats("a") + "call bml_scale(al, ma)")
    sub("scale2_" + p, "al, a, b", "%s :: al\n" % ty + PT("a", "b") + M("ma", "mb"), mats("a", "b") + "call bml_scale(al, ma, mb)")
    sub("export_" + p, "a, n, pre, r", PT("a") + I("n", "pre") + "%s :: r(n,n)\n%s, allocatable :: t(:,:)\n" % (ty, ty) + M("ma"), mats("a") + "if (pre > 0) allocate(t(pre, n))\ncall bml_export_to_dense(ma, t)\nif (size(t, 1) /= n .or. size(t, 2) /= n) error stop 'dense array has a wrong size'\nr = t")
    # sec: hand over an array section (stride 2 in both directions, shifted) instead of a whole array
    def imp(arr): return "\n".join("  %sif (has == %d) then\n    call bml_import_from_dense(trim(tstr(t)), %s, a%s%s%s)" % ("else " if k else "", k, arr, ", threshold=thr" if k & 1 else "", ", m=m" if k & 2 else "", ", distrib_mode=BML_DMODE_SEQUENTIAL" if k & 4 else "") for k in range(8)) + "\n  end if"
    sub("import_" + p, "t, n, m, d, thr, has, sec, old", I("t", "n", "m", "has", "sec") + D("thr") + PT("old") + "%s :: d(n,n)\n%s, allocatable :: big(:,:)\n" % (ty, ty) + M("a"),
        "a%ptr = old\nif (sec == 0) then\n" + imp("d") + "\nelse if (sec == 1) then\n  allocate(big(2 * n + 1, 2 * n + 1))\n  big = -77\n  big(2:2*n:2, 3:2*n+1:2) = d\n" + imp("big(2:2*n:2, 3:2*n+1:2)") +
        "\nelse\n  allocate(big(-1:n-2, 5:n+4))\n  big = d\n" + imp("big") + "\nend if\nres = a%ptr", "type(C_PTR)")
    sub("print_dense_" + p, "n, d, il, iu, jl, ju, sec", I("n", "il", "iu", "jl", "ju", "sec") + "%s :: d(n,n)\n%s, allocatable :: big(:,:)\n" % (ty, ty),
        "if (sec == 0) then\n  call bml_print_matrix('tag', d, il, iu, jl, ju)\nelse\n  allocate(big(2 * n + 1, 2 * n + 1))\n  big = -77\n  big(2:2*n:2, 3:2*n+1:2) = d\n  call bml_print_matrix('tag', big(2:2*n:2, 3:2*n+1:2), il, iu, jl, ju)\nend if\nflush(6)")
out.append("end module fshim\n")
open("/verif/src/fshim.F90", "w").write("\n".join(out))
