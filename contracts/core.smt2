; Core theory: slices, matrices, views.


(declare-sort MV 0)
; absolute position of the i-th element of a slice starting at off
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun tmod ((a Int) (b Int)) Int (- a (* b (tdiv a b))))
; wrap-around conversions
(define-fun wrapS ((x Int) (h Int)) Int (- (mod (+ x h) (* 2 h)) h))
(define-fun wrapU ((x Int) (m Int)) Int (mod x m))
; r is one of the n references stored in A from position o on
(declare-fun rowOf ((Array Int Int) Int Int Int) Bool)
(declare-fun widx ((Array Int Int) Int Int Int) Int)
(assert (forall ((A (Array Int Int)) (o Int) (n Int) (r Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (= (select A (ix o i)) r)) (rowOf A o n r)) :pattern ((rowOf A o n r) (select A (ix o i))))))
(assert (forall ((A (Array Int Int)) (o Int) (n Int) (r Int)) (! (=> (rowOf A o n r) (and (<= 0 (widx A o n r)) (< (widx A o n r) n) (= (select A (ix o (widx A o n r))) r))) :pattern ((rowOf A o n r)))))
; every value stored in a, up to reference n, is a natural number below n
; (upto: at any reference)
(declare-fun below1 ((Array Int Int) Int) Bool)
(declare-fun below2 ((Array Int (Array Int Int)) Int) Bool)
(declare-fun upto1 ((Array Int Int) Int) Bool)
(declare-fun upto2 ((Array Int (Array Int Int)) Int) Bool)
(assert (forall ((a (Array Int Int)) (n Int) (r Int)) (! (=> (upto1 a n) (and (<= 0 (select a r)) (<= (select a r) n))) :pattern ((upto1 a n) (select a r)))))
(assert (forall ((a (Array Int (Array Int Int))) (n Int) (r Int) (i Int)) (! (=> (upto2 a n) (and (<= 0 (select (select a r) i)) (<= (select (select a r) i) n))) :pattern ((upto2 a n) (select (select a r) i)))))
(assert (forall ((a (Array Int Int)) (n Int) (r Int)) (! (=> (and (below1 a n) (< r n)) (and (<= 0 (select a r)) (< (select a r) n))) :pattern ((below1 a n) (select a r)))))
(assert (forall ((a (Array Int (Array Int Int))) (n Int) (r Int) (i Int)) (! (=> (and (below2 a n) (< r n)) (and (<= 0 (select (select a r) i)) (< (select (select a r) i) n))) :pattern ((below2 a n) (select (select a r) i)))))
; finite matrices of floats (canonical: determined by size and entries)
(declare-fun rows (MV) Int)
(declare-fun cols (MV) Int)
(declare-fun at (MV Int Int) F)
; the matrix stored in float heap H, row references A from position o on
; (r, the reference of the outer slice, only narrows the extensionality trigger)
(declare-fun mv ((Array Int (Array Int F)) (Array Int Int) Int Int Int Int) MV)
(assert (forall ((H (Array Int (Array Int F))) (A (Array Int Int)) (r Int) (o Int) (n Int) (c Int)) (! (=> (and (>= n 0) (>= c 0)) (and (= (rows (mv H A r o n c)) n) (= (cols (mv H A r o n c)) c))) :pattern ((mv H A r o n c)))))
(assert (forall ((H (Array Int (Array Int F))) (A (Array Int Int)) (r Int) (o Int) (n Int) (c Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 j) (< j c)) (= (at (mv H A r o n c) i j) (select (select H (select A (ix o i))) j))) :pattern ((at (mv H A r o n c) i j)))))
; extensionality between two stored matrices of the same place
(declare-fun xi ((Array Int (Array Int F)) (Array Int Int) (Array Int (Array Int F)) (Array Int Int) Int Int Int) Int)
(declare-fun xj ((Array Int (Array Int F)) (Array Int Int) (Array Int (Array Int F)) (Array Int Int) Int Int Int) Int)
(assert (forall ((H (Array Int (Array Int F))) (A (Array Int Int)) (K (Array Int (Array Int F))) (B (Array Int Int)) (r Int) (o Int) (n Int) (c Int))
 (! (or (= (mv H A r o n c) (mv K B r o n c))
   (and (<= 0 (xi H A K B o n c)) (< (xi H A K B o n c) n) (<= 0 (xj H A K B o n c)) (< (xj H A K B o n c) c)
        (not (= (select (select H (select A (ix o (xi H A K B o n c)))) (xj H A K B o n c)) (select (select K (select B (ix o (xi H A K B o n c)))) (xj H A K B o n c))))))
  :pattern ((mv H A r o n c) (mv K B r o n c)))))
