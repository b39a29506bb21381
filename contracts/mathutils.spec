package mathutils

# similarity measures -------------------------------------------------

func EuclideanDistance(v1, v2) (r, err)
  pure fscore fok
  ensures [C02, C01] error-iff-dims: iff(err == nil, len(v1) == len(v2))
  ensures [C02, C01] euclid: imp(err == nil, r == rsqrt(dist2(v1, v2, len(v1))))
  ensures [C02] root: imp(err == nil, r >= 0.0 && r*r == dist2(v1, v2, len(v1)))
  inv [C02, C01] r == dist2(v1, v2, i)
  inv [C02, C01] r >= 0.0

func norm(vec) (x)
  ensures [C02, C01] norm: x == rsqrt(dot(vec, vec, len(vec)))
  ensures [C02, C01] root: x >= 0.0 && x*x == dot(vec, vec, len(vec)) && dot(vec, vec, len(vec)) >= 0.0
  inv [C02, C01] x == dot(vec, vec, i)
  inv [C02, C01] x >= 0.0

func CosineSimilarity(vec1, vec2) (r, err)
  pure fscore fok
  ensures [C02, C01] error-iff-dims: iff(err == nil, len(vec1) == len(vec2))
  ensures [C02] zero-vector: imp(err == nil && (dot(vec1, vec1, len(vec1)) == 0.0 || dot(vec2, vec2, len(vec2)) == 0.0), r == 0.0)
  ensures [C02] cosine: imp(err == nil && dot(vec1, vec1, len(vec1)) != 0.0 && dot(vec2, vec2, len(vec2)) != 0.0, \
     r*rsqrt(dot(vec1, vec1, len(vec1)))*rsqrt(dot(vec2, vec2, len(vec2))) == dot(vec1, vec2, len(vec1)))
  ensures [C01] cossim: imp(err == nil, r == cossim(vec1, vec2, len(vec1)))
  inv [C02, C01] dot == dot(vec1, vec2, i)

# vector helpers ------------------------------------------------------

define vecsame(a, b) = len(a) == len(b) && forall(j, 0, len(a), valat(a, j) == valat(b, j))

func Vec(v) (res)
  ensures [C03] copy: len(res) == len(v) && fresh(res) && imp(J < len(v), val(res) == val(v))
  inv imp(J < iter, val(_vec) == val(v))

func VecEq(v1, v2) (ok)
  ensures [C03] same: imp(ok, vecsame(v1, v2))
  ensures [C03] differ: imp(!ok, len(v1) != len(v2) || exists(i, 0, len(v1), valat(v1, i) != valat(v2, i)))
  inv [C03] forall(j, 0, i, valat(v1, j) == valat(v2, j))

func VecIn(vec, vecs) (ok)
  ensures [C03] found: imp(ok, exists(i, 0, len(vecs), vecsame(vec, view(vecs)[i])))
  ensures [C03] none: imp(!ok, forall(i, 0, len(vecs), !vecsame(vec, view(vecs)[i])))
  inv [C03] forall(i, 0, iter, !vecsame(vec, view(vecs)[i]))

func VecDivScalar(vec, scalar) (res)
  root [C03]
  ensures len: len(res) == len(vec) && fresh(res)
  ensures div: imp(J < len(vec), val(res) == val(vec) / scalar)
  inv imp(J < iter, val(res) == val(vec) / scalar)

func VecMulScalar(vec, scalar) (res)
  root [C03]
  ensures len: len(res) == len(vec) && fresh(res)
  ensures mul: imp(J < len(vec), val(res) == val(vec) * scalar)
  inv imp(J < iter, val(res) == val(vec) * scalar)

func VecAdd(a, b) (res, ok)
  root [C03]
  ensures ok: ok == (len(a) == len(b))
  ensures len: imp(ok, len(res) == len(a)) && fresh(res)
  ensures add: imp(ok && J < len(a), val(res) == val(a) + val(b))
  inv imp(J < i, val(res) == val(a) + val(b))

func VecSub(a, b) (res, ok)
  root [C03]
  ensures ok: ok == (len(a) == len(b))
  ensures len: imp(ok, len(res) == len(a)) && fresh(res)
  ensures sub: imp(ok && J < len(a), val(res) == val(a) - val(b))
  inv imp(J < i, val(res) == val(a) - val(b))

func VecMean(generator) (res, ok)
  root [C03]
  role generator stop
  requires generator != nil
  modifies gen(generator)
  ensures mean: imp(ok, gendone(generator) && len(yielded(generator)) > 0 && badv(len(res), yielded(generator)) == 0 && fresh(res))
  ensures avg: imp(ok && J < len(res), val(res) * real(len(yielded(generator))) == sumv(J, yielded(generator)))
  ensures fail: imp(!ok, (gendone(generator) && len(yielded(generator)) == 0) || badv(len(yielded(generator)[0]), yielded(generator)) > 0)
  inv n == real(len(yielded(generator))) && len(yielded(generator)) > 0
  inv badv(len(res), yielded(generator)) == 0
  inv len(yielded(generator)[0]) == len(res)
  inv imp(J < len(res), val(res) == sumv(J, yielded(generator)))
  inv imp(J < len(res), val(res) == loopold(val(res)) + ite(J < i, val(vec), 0.0))
  inv imp(J < len(res), val(res) == ite(J < i, loopold(val(res)) / n, loopold(val(res))))
