; Floating point, IEEE reading.  F is the set of float64 values, kept abstract.
; rk is an order embedding of the non-NaN values into the reals which is exact
; on every finite value whose magnitude is below 2^53 (infinities get ranks
; beyond all finite ones); fnan marks NaN.  Arithmetic is uninterpreted except
; for the identities below, each of which holds for IEEE-754 binary64 with
; round-to-nearest, bit for bit up to the payload of NaN and, where an axiom
; speaks of rk only, up to the sign of zero.
(declare-sort F 0)
(declare-fun rk (F) Real)
(declare-fun fnan (F) Bool)
(declare-fun fadd (F F) F)
(declare-fun fmul (F F) F)
(declare-fun fdiv (F F) F)
(declare-fun fneg (F) F)
(declare-fun fabs (F) F)
(declare-fun fmax (F F) F)
(declare-fun fmin (F F) F)
(declare-fun fexp (F) F)
(declare-fun flog (F) F)
(declare-fun fpow (F F) F)
(declare-fun fsqrt (F) F)
(declare-fun m_floor (F) F)
(declare-fun m_ceil (F) F)
(declare-fun m_round (F) F)
(declare-fun m_trunc (F) F)
(declare-fun m_tan (F) F)
(declare-fun m_tanh (F) F)
(declare-fun m_log1p (F) F)
(declare-fun m_expm1 (F) F)
(declare-fun i2f (Int) F)
(declare-fun f2i (F) Int)
(define-fun fsub ((a F) (b F)) F (fadd a (fneg b)))
(define-fun flt ((a F) (b F)) Bool (and (not (fnan a)) (not (fnan b)) (< (rk a) (rk b))))
(define-fun fle ((a F) (b F)) Bool (and (not (fnan a)) (not (fnan b)) (<= (rk a) (rk b))))
(define-fun feq ((a F) (b F)) Bool (and (not (fnan a)) (not (fnan b)) (= (rk a) (rk b))))
(assert (forall ((a F) (b F)) (! (= (fadd a b) (fadd b a)) :pattern ((fadd a b)))))
(assert (forall ((a F) (b F)) (! (= (fmul a b) (fmul b a)) :pattern ((fmul a b)))))
(assert (forall ((a F)) (! (and (= (fneg (fneg a)) a) (= (rk (fneg a)) (- (rk a))) (= (fnan (fneg a)) (fnan a))) :pattern ((fneg a)))))
(assert (forall ((a F) (b F)) (! (= (fmul (fneg a) b) (fneg (fmul a b))) :pattern ((fmul (fneg a) b)))))
(assert (forall ((a F) (b F)) (! (= (fdiv (fneg a) b) (fneg (fdiv a b))) :pattern ((fdiv (fneg a) b)))))
(assert (forall ((a F) (b F)) (! (= (fdiv a (fneg b)) (fneg (fdiv a b))) :pattern ((fdiv a (fneg b))))))
(assert (forall ((a F)) (! (= (fmul a (i2f 1)) a) :pattern ((fmul a (i2f 1))))))
(assert (forall ((a F)) (! (= (fmul (i2f 1) a) a) :pattern ((fmul (i2f 1) a)))))
; a - 0 is a
(assert (forall ((a F)) (! (= (fadd a (fneg (i2f 0))) a) :pattern ((fadd a (fneg (i2f 0)))))))
(assert (forall ((a F)) (! (= (fdiv a (i2f 1)) a) :pattern ((fdiv a (i2f 1))))))
(assert (forall ((a F)) (! (and (= (fnan (fabs a)) (fnan a)) (= (rk (fabs a)) (ite (>= (rk a) 0.0) (rk a) (- (rk a))))) :pattern ((fabs a)))))
; max of two non-NaN values: the larger one
(assert (forall ((a F) (b F)) (! (and (=> (flt a b) (= (fmax a b) b)) (=> (flt b a) (= (fmax a b) a))
   (=> (and (not (fnan a)) (not (fnan b))) (and (not (fnan (fmax a b))) (= (rk (fmax a b)) (ite (< (rk a) (rk b)) (rk b) (rk a)))))
   (=> (or (fnan a) (fnan b)) (or (fnan (fmax a b)) (> (rk (fmax a b)) 9007199254740992.0)))) :pattern ((fmax a b)))))
(assert (forall ((a F) (b F)) (! (and (=> (flt a b) (= (fmin a b) a)) (=> (flt b a) (= (fmin a b) b))
   (=> (and (not (fnan a)) (not (fnan b))) (and (not (fnan (fmin a b))) (= (rk (fmin a b)) (ite (< (rk b) (rk a)) (rk b) (rk a)))))
   (=> (or (fnan a) (fnan b)) (or (fnan (fmin a b)) (< (rk (fmin a b)) (- 9007199254740992.0))))) :pattern ((fmin a b)))))
; integers up to 2^53 are exact
(assert (forall ((n Int)) (! (and (not (fnan (i2f n))) (=> (and (<= (- 9007199254740992) n) (<= n 9007199254740992)) (= (rk (i2f n)) (to_real n)))) :pattern ((i2f n)))))
(assert (forall ((n Int)) (! (=> (and (<= (- 9007199254740992) n) (<= n 9007199254740992)) (= (f2i (i2f n)) n)) :pattern ((i2f n)))))
(assert (forall ((x F)) (! (=> (and (not (fnan x)) (< (- 9007199254740992.0) (rk x)) (< (rk x) 9007199254740992.0)) (= (f2i x) (ite (>= (rk x) 0.0) (to_int (rk x)) (- (to_int (- (rk x))))))) :pattern ((f2i x)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= (- 4503599627370496) a) (<= a 4503599627370496) (<= (- 4503599627370496) b) (<= b 4503599627370496)) (= (fadd (i2f a) (i2f b)) (i2f (+ a b)))) :pattern ((fadd (i2f a) (i2f b))))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= (- 4503599627370496) a) (<= a 4503599627370496) (<= (- 4503599627370496) b) (<= b 4503599627370496)) (= (fadd (i2f a) (fneg (i2f b))) (i2f (- a b)))) :pattern ((fadd (i2f a) (fneg (i2f b)))))))
; 1 - b for a b in [0, 1]
(assert (forall ((b F)) (! (=> (and (not (fnan b)) (<= 0.0 (rk b)) (<= (rk b) 1.0)) (and (not (fnan (fadd (i2f 1) (fneg b)))) (<= 0.0 (rk (fadd (i2f 1) (fneg b)))) (<= (rk (fadd (i2f 1) (fneg b))) 1.0))) :pattern ((fadd (i2f 1) (fneg b))))))
; 1/(1-b) for b in [0, 1), and products with a factor between 1 and 2^53
(assert (forall ((b F)) (! (=> (and (not (fnan b)) (<= 0.0 (rk b)) (< (rk b) 1.0)) (and (not (fnan (fdiv (i2f 1) (fadd (i2f 1) (fneg b))))) (<= 1.0 (rk (fdiv (i2f 1) (fadd (i2f 1) (fneg b))))) (<= (rk (fdiv (i2f 1) (fadd (i2f 1) (fneg b)))) 9007199254740992.0))) :pattern ((fdiv (i2f 1) (fadd (i2f 1) (fneg b)))))))
(assert (forall ((a F) (b F)) (! (=> (and (not (fnan (fdiv (i2f 1) b))) (<= 1.0 (rk (fdiv (i2f 1) b))) (<= (rk (fdiv (i2f 1) b)) 9007199254740992.0)) (and (= (fnan (fmul a (fdiv (i2f 1) b))) (fnan a)) (= (<= (rk (fmul a (fdiv (i2f 1) b))) 0.0) (<= (rk a) 0.0)))) :pattern ((fmul a (fdiv (i2f 1) b))))))
; a exceeds b by at most n
(define-fun within ((a F) (b F) (n Int)) Bool (<= (rk a) (+ (rk b) (to_real n))))
