"""one place for the wording of the properties (title/statement), merged into properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {
'C01': "For every system function, state, time and step size, one step of each explicit Runge-Kutta stepper (Euler, both RK4 variants, both Cash-Karp 5(4) variants, Dormand-Prince 5, Fehlberg 7(8), modified midpoint, and the generic stepper with any user-supplied tableau) equals x + dt*sum(b_i k_i), where each k_i is the system evaluated once at x + dt*sum(a_ij k_j) and at time t + dt*sum(a_ij). The tableau so realised satisfies every order condition up to the order the stepper reports (modified midpoint: its midpoint recurrence for the configured number of substeps; generic stepper: exactly the supplied tableau).",
'C02': "For every system, state, time and step size, the error estimate an error stepper (Cash-Karp 5(4) both variants, Dormand-Prince 5, Fehlberg 7(8), generic error stepper with any tableau) writes equals dt*sum((b_i - bhat_i) k_i), the difference of the result and its published embedded companion formula with that sign; the companion satisfies all order conditions up to its own order but not one order further. Asking for the error estimate does not change the resulting state, time arguments or derivative output.",
'C04': "Over every sequence of calls to the first-same-as-last stepper (Dormand-Prince 5, and any stepper built on its base class) - plain, with error, in place or out of place, with caller-held derivative, after initialize or reset - each step advances with the derivative of the system at the current state and time: either freshly evaluated (first call or after reset) or the stored derivative from the end of the previous step, and the derivative returned with a step is the system evaluated at the new state and t+dt. Calls in which the caller supplies the derivative invalidate the stored one so that the next call without one evaluates afresh. (The caller continues from the last end point unless it resets, initialises or supplies the derivative.)",
'C05': "For every system, tolerances, state, time and trial step, a controlled Runge-Kutta step (plain and FSAL, every try_step overload) either succeeds - the new state is the underlying stepper's result for the step that was tried, the time advances by exactly that step, and the scaled error maximum was at most 1 - or fails, in which case state, time and stored derivative are exactly as before and the suggested step is strictly smaller in magnitude with the same sign. The scaled error maximum is max over all elements of |err_i|/(eps_abs + eps_rel*(a_x*|x_i| + a_dxdt*|dt|*|dxdt_i|)), with x and dxdt taken at the start of the step. (FSAL: the caller continues from the last end point unless it resets, initialises or supplies the derivative.)",
'C06': "For every error value, order, step sign and configuration, the step size controller of the controlled Runge-Kutta steppers multiplies the step by max(9/10*err^(-1/(error_order-1)), 1/5) on rejection and, when err<1/2, by 9/10*err'^(-1/stepper_order) on acceptance (err' is err bounded below by 5^(-stepper_order), so that a step grows at most by 4.5), leaves it unchanged otherwise, never changes its sign, and never lets a suggested step grow beyond a non-zero maximum step (given with the sign of the direction of integration) in magnitude. A trial step whose magnitude exceeds the maximum (beyond machine epsilon) is not attempted: the attempt fails with the step set to the maximum and state and time unchanged.",
'C07': "For every stepper category (plain, controlled, dense output), start state, interval and signed step, constant-step integration and n-step integration call the observer exactly once at each t0+i*dt in order (n+1 calls for n steps, beginning with the initial state), with the state the stepper produced for that time. Constant-step integration stops at the last such point not beyond the end time (up to rounding) and returns the number of steps it made; n-step integration makes exactly n intervals and returns t0+n*dt; in both cases the caller's state variable ends as the solution at the last observed time.",
'C09': "For every non-empty sequence of observation times (consecutive ones equal or further apart than machine epsilon, in the direction of dt) and every stepper category, integration to given times calls the observer exactly once per time, in order, at exactly that time, with the solution state at that time (an accepted step end or dense-output interpolation inside the last step). Between two times the plain and controlled versions never step past the next requested time, the controlled version keeps its larger suggested step across shortened steps, and the function returns the number of accepted steps.",
'C10': "With a maximum-step checker attached, constant-step, n-step and times integration throw the no-progress error exactly when more than the configured number of steps is made between two consecutive observer calls; the count restarts after each observer call. With controlled and dense-output steppers, more than the configured number of consecutive rejected tries (a separate counter, 500 by default when no checker is given) throws the step-adjustment error, any accepted step restarts that count, and attaching a checker changes neither the observed states and times nor the result.",
'C11': "For every non-empty interval and step in its direction and each stepper category an iterator supports (constant-step and n-step: plain and dense output; adaptive: controlled and dense output; times: plain, controlled, dense output), iterating the constant-step, n-step, adaptive and times iterators (and ranges, with or without times) yields exactly the states and times the corresponding integration function passes to its observer (times up to machine epsilon), in the same order and number, and then compares equal to the end iterator; before that it compares unequal to it. The exposed state is the solution at the exposed time.",
'C12': "For every history of steps, a Runge-Kutta dense-output stepper reports contiguous time intervals (each starts where the previous one ended, length = accepted step), current/previous state and time belong to those end points, and interpolation at any time inside the interval reproduces the old state at its start and the new state at its end; the interpolant does not depend on earlier interpolation calls and never modifies the stepper's state. The Dormand-Prince continuous extension is a fourth-order formula for every fraction of the step; the dense output of the explicit Euler stepper interpolates linearly.",
'C13': "For every step count from 1 to 8, system, state and history, an Adams-Bashforth step adds dt times the weighted sum of the last derivatives, newest first, with weights that integrate polynomials of degree below the step count exactly; the Adams-Moulton corrector of k weights (derivative at the new point included) is exact for degree below k; the combined predictor-corrector applies prediction, one evaluation at t+dt, and correction. The history is filled by the initializing stepper in time order, is shifted by exactly one per step, and resetting returns the stepper to its uninitialised behaviour.",
'C14': "For every step-size history, the adaptive Adams-Bashforth-Moulton stepper's prediction integrates exactly any derivative that is a polynomial of degree below its current effective order on the actual (non-uniform) time grid, and its correction one degree more; the effective order starts at 1, rises by one per step up to the template order, and after initialize or reset starts over. Its controlled version accepts exactly when the step adjuster proposes at least 0.9 times the tried step; on acceptance it advances state and time by the tried step, on rejection it leaves state, time and history unchanged and proposes a smaller step of the same sign.",
'C15': "For every separable Hamiltonian system, state, time and step, each symplectic stepper (Euler, both McLachlan schemes) is a sequence of drifts q += a_i*dt*dq(p) and kicks p += b_i*dt*dp(q), each using the most recent values, whose coefficients each sum to one and satisfy the order conditions of the advertised order; hence the map preserves the symplectic form and is the same in place, out of place, for state pairs, separate arguments and simple systems with dq/dt = p. The velocity Verlet stepper computes x + v*dt + a*dt^2/2 and v + (a + a')*dt/2 with a' evaluated at the new position and time, reuses a' as the next a, and is time-reversible.",
'C16': "For every system, Jacobian, explicit time derivative, state, time and step for which the linear system is solvable, the Rosenbrock step solves its stage equations with matrix 1/(gamma*dt) - J, combines them to a fourth-order result (also for systems that depend explicitly on time) with an embedded third-order error, and does not modify its input state. The Rosenbrock controller accepts exactly when the root mean square of the scaled errors is at most 1: rejected steps leave state and time alone and shrink the step, accepted steps advance time by the tried step, and one attempt changes the step at most by the factors 1/5 and 6. The dense-output wrapper reports contiguous steps and its third-order interpolation matches both end states.",
'C17': "For every system, Jacobian, state, time and step, implicit Euler performs simplified Newton iterations for x_new = x + dt*f(x_new, t+dt): the matrix dt*J - 1 is taken once at the start state and the end time and factorised once, each iteration solves with the residual of the current iterate (the system evaluated at t+dt), and the iteration stops when the norm of the last update is at or below the tolerance; a linear system is solved exactly.",
'C18': "For every system and step, the Bulirsch-Stoer stepper (plain and dense output) runs the midpoint rule with substeps 2,4,6,... (dense output: 2,6,10,...) and forms the Aitken-Neville extrapolation to zero substep size; every order index it computes with stays within its tables whatever the sequence of errors. An accepted step advances time by exactly the tried step with the extrapolated state, a rejected one leaves state and time unchanged and proposes a step of the same sign, and non-zero maximum steps are not exceeded (up to machine epsilon), forward and backward in time alike. Dense output is exact for solutions that are polynomials of the degree its column supports, does not modify the stepper, and the step intervals are contiguous.",
'C20': 'For every stepper and call history, a copy-constructed or assigned stepper behaves from then on exactly like the original would and using one never affects the other. With resizable states, internal temporaries are resized to the current state before use (always, initially, or never according to the resizer), so that no element outside a container is read or written, and under the always resizer a stepper used with a state of another size behaves like a new one.',
'C22': "Splitting a container into any number of parts (range splitting, split_adaptor with its offset formula, the OpenMP split state) and merging it again reproduces the container exactly: every element lands in exactly one part, order is preserved, the ranges of the split_adaptor are contiguous and differ in size by at most one. Copying or resizing a split state works part by part. An observer collection calls every registered observer exactly once per observation, in registration order, with the given state and time.",
'C24': "For every system, state, time and step the fixed-order extrapolation stepper (orders 4 to 10) runs the modified midpoint rule with its increasing substep sequence 2,4,6,... and combines the results with the unique weights that cancel the first order/2-1 even error powers; its error estimate is the difference of the last two extrapolation columns. In-place and out-of-place calls agree, caller-supplied derivatives are used as given, and inputs are left unmodified.",
}
out = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    if d['id'] in S: d['statement'] = S[d['id']]
    out.append(json.dumps(d))
open(V + '/properties.jsonl', 'w').write('\n'.join(out) + '\n')
