; Floating point, real reading (fallback for code that reassociates sums or
; products): a float64 is a real number, rounding, overflow and NaN are ignored.
(define-sort F () Real)
(define-fun rk ((a F)) Real a)
(define-fun fnan ((a F)) Bool false)
(define-fun fadd ((a F) (b F)) F (+ a b))
(define-fun fmul ((a F) (b F)) F (* a b))
(define-fun fdiv ((a F) (b F)) F (/ a b))
(define-fun fneg ((a F)) F (- a))
(define-fun fsub ((a F) (b F)) F (- a b))
(define-fun fabs ((a F)) F (ite (>= a 0.0) a (- a)))
(define-fun fmax ((a F) (b F)) F (ite (< a b) b a))
(define-fun fmin ((a F) (b F)) F (ite (< b a) b a))
(define-fun flt ((a F) (b F)) Bool (< a b))
(define-fun fle ((a F) (b F)) Bool (<= a b))
(define-fun feq ((a F) (b F)) Bool (= a b))
(declare-fun fexp (F) F)
(declare-fun flog (F) F)
(declare-fun fpow (F F) F)
(declare-fun fsqrt (F) F)
(declare-fun m_floor (F) F)
(declare-fun m_ceil (F) F)
(declare-fun m_round (F) F)
(declare-fun m_trunc (F) F)
(declare-fun m_tan (F) F)
(declare-fun m_tanh (F) F)
(declare-fun m_log1p (F) F)
(declare-fun m_expm1 (F) F)
(define-fun i2f ((n Int)) F (to_real n))
(define-fun f2i ((x F)) Int (ite (>= x 0.0) (to_int x) (- (to_int (- x)))))
(assert (forall ((x F)) (! (> (fexp x) 0.0) :pattern ((fexp x)))))
(assert (forall ((x F)) (! (= (fpow x 2.0) (* x x)) :pattern ((fpow x 2.0)))))
; a exceeds b by at most n
(define-fun within ((a F) (b F) (n Int)) Bool (<= (rk a) (+ (rk b) (to_real n))))
