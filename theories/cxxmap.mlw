(* std::unordered_map / std::map as finite maps (Why3's fmap.Fmap); iteration takes the keys in some order, each once. *)
module FMap
  use int.Int
  use seq.Seq
  use cxx.Base
  use cxx.Vec
  use cxxint.U64
  use cxxint.U32
  use fmap.Fmap as M
  use set.Fset as S
  type fmap 'k 'v = M.fmap 'k 'v
  predicate fmem (k : 'k) (m : fmap 'k 'v) = M.mem k m
  val fmem (k : 'k) (m : fmap 'k 'v) : bool ensures { result <-> fmem k m }
  val function mget (m : fmap 'k 'v) (k : 'k) : 'v requires { M.mem k m } ensures { result = M.contents m k }
  function fval (m : fmap 'k 'v) (k : 'k) : 'v = M.contents m k
  val function fadd_ (k : 'k) (v : 'v) (m : fmap 'k 'v) : fmap 'k 'v ensures { result = M.add k v m }
  (* emplace / insert keep an existing element *)
  let finsert (k : 'k) (v : 'v) (m : fmap 'k 'v) : fmap 'k 'v ensures { result = if fmem k m then m else fadd_ k v m } = if fmem k m then m else fadd_ k v m
  val function fremove_ (k : 'k) (m : fmap 'k 'v) : fmap 'k 'v ensures { result = M.remove k m }
  val constant fempty : fmap 'k 'v ensures { result = M.empty }
  val function fsize (m : fmap 'k 'v) : int ensures { result = M.size m } ensures { in_u64 result }
  val function fisempty (m : fmap 'k 'v) : bool ensures { result <-> forall k. not M.mem k m }

  lemma mem_empty : forall k : 'k. not fmem k (fempty : fmap 'k 'v)
  lemma mem_add : forall k j : 'k, v : 'v, m. fmem k (fadd_ j v m) <-> k = j \/ fmem k m
  lemma get_add : forall k j : 'k, v : 'v, m. (k = j \/ fmem k m) -> fval (fadd_ j v m) k = if k = j then v else fval m k
  lemma mem_remove : forall k j : 'k, m : fmap 'k 'v. fmem k (fremove_ j m) <-> k <> j /\ fmem k m
  lemma get_remove : forall k j : 'k, m : fmap 'k 'v. k <> j -> fmem k m -> fval (fremove_ j m) k = fval m k
  lemma mget_fval : forall k : 'k, m : fmap 'k 'v. fmem k m -> mget m k = fval m k
  let ghost ext (a b : fmap 'k 'v)
    requires { forall k. fmem k a <-> fmem k b } requires { forall k. fmem k a -> fval a k = fval b k } ensures { a = b }
  = assert { forall k. S.mem k (M.domain a) <-> S.mem k (M.domain b) by fmem k a <-> fmem k b };
    assert { S.(==) (M.domain a) (M.domain b) };
    assert { forall k. S.mem k (M.domain a) -> M.contents a k = M.contents b k by fmem k a /\ fval a k = fval b k };
    assert { M.(==) a b }
  let lemma add_again (k : 'k) (v w : 'v) (m : fmap 'k 'v) ensures { fadd_ k v (fadd_ k w m) = fadd_ k v m } = ext (fadd_ k v (fadd_ k w m)) (fadd_ k v m)

  (* well-typed maps keyed by exponent vectors *)
  predicate map_ok (m : fmap (seq int) 'v) = forall k. fmem k m -> vec_ok k /\ forall i. 0 <= i < length k -> in_u32 k[i]
  lemma map_ok_add : forall m : fmap (seq int) 'v, k, v. map_ok m -> vec_ok k -> (forall i. 0 <= i < length k -> in_u32 k[i]) -> map_ok (fadd_ k v m)
  lemma map_ok_remove : forall m : fmap (seq int) 'v, k. map_ok m -> map_ok (fremove_ k m)
  lemma map_ok_empty : map_ok (fempty : fmap (seq int) 'v)

  function pos (s : seq 'k) (k : 'k) : int
  predicate enumerates (s : seq 'k) (m : fmap 'k 'v) =
    (forall i. 0 <= i < length s -> fmem s[i] m) /\ (forall i j. 0 <= i < j < length s -> s[i] <> s[j]) /\
    (forall k. fmem k m -> 0 <= pos s k < length s /\ s[pos s k] = k)
  (* the order of iteration: some enumeration of the keys *)
  val any_enum (m : fmap 'k 'v) : seq 'k ensures { enumerates result m } ensures { vec_ok result }
  val any_begin (m : fmap 'k 'v) : (f : bool, k : 'k) ensures { f <-> exists k. fmem k m } ensures { f -> fmem k m }
end
