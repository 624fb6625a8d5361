; Size bounds for float64 results (IEEE reading; used only by lemmas that say
; "theory bounds").  Each follows from correct rounding: rounding is monotone,
; integers up to 2^53 are representable
; (so a rounded sum below 2^52 is within 1 of the exact one), and the relative error is below 1%
; (far below) whenever the result is not subnormal; a sum is never inexactly
; subnormal.  math.Log is assumed accurate to well below 0.5 on [1e-8, 1].
(define-fun bnd ((x F) (m Real)) Bool (and (not (fnan x)) (<= (- m) (rk x)) (<= (rk x) m)))
(assert (forall ((a F) (b F)) (! (=> (and (bnd a 2251799813685248.0) (bnd b 2251799813685248.0))
  (and (not (fnan (fadd a b)))
       (<= (- (+ (rk a) (rk b)) 1.0) (rk (fadd a b))) (<= (rk (fadd a b)) (+ (+ (rk a) (rk b)) 1.0))
       (=> (<= (+ (rk a) (rk b)) 1.0) (<= (rk (fadd a b)) 1.0))
       (=> (= (rk a) 0.0) (= (rk (fadd a b)) (rk b))) (=> (= (rk b) 0.0) (= (rk (fadd a b)) (rk a)))
       (=> (>= (+ (rk a) (rk b)) 0.0) (and (<= (* 0.99 (+ (rk a) (rk b))) (rk (fadd a b))) (<= (rk (fadd a b)) (* 1.01 (+ (rk a) (rk b))))))
       (=> (<= (+ (rk a) (rk b)) 0.0) (and (>= (* 0.99 (+ (rk a) (rk b))) (rk (fadd a b))) (>= (rk (fadd a b)) (* 1.01 (+ (rk a) (rk b))))))))
  :pattern ((fadd a b)))))
(assert (forall ((a F) (b F)) (! (=> (and (bnd a 2251799813685248.0) (bnd b 2251799813685248.0))
  (and (not (fnan (fmul a b)))
       (=> (or (= (rk a) 0.0) (= (rk b) 0.0)) (= (rk (fmul a b)) 0.0))
       (=> (= (rk a) 1.0) (= (rk (fmul a b)) (rk b))) (=> (= (rk b) 1.0) (= (rk (fmul a b)) (rk a)))))
  :pattern ((fmul a b)))))
(assert (forall ((a F) (b F)) (! (=> (and (bnd a 2251799813685248.0) (bnd b 2251799813685248.0) (>= (rk b) 1.0))
  (and (bnd (fdiv a b) 2251799813685248.0) (=> (>= (rk a) 0.0) (and (<= 0.0 (rk (fdiv a b))) (<= (rk (fdiv a b)) (rk a)))) (=> (<= (rk a) 0.0) (and (>= 0.0 (rk (fdiv a b))) (>= (rk (fdiv a b)) (rk a))))))
  :pattern ((fdiv a b)))))
(assert (forall ((a F) (b F)) (! (=> (and (bnd a 1.0) (not (fnan b)) (>= (rk b) 0.00000001) (<= (rk b) 2.0)) (bnd (fdiv a b) 200000000.0)) :pattern ((fdiv a b)))))
(assert (forall ((x F)) (! (=> (and (not (fnan x)) (<= 0.00000001 (rk x)) (<= (rk x) 1.0)) (and (not (fnan (flog x))) (<= (- 19.0) (rk (flog x))) (<= (rk (flog x)) 0.0))) :pattern ((flog x)))))
