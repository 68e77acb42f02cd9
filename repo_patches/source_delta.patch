From c294425b0ded6c589c4b3bec46a48ed782b4e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:12 +0000
Subject: [PATCH 01/31] fix: integrate_const and integrate_n_steps with dense
 output steppers

integrate_const interpolated before any step was made if exactly one
observation interval fits, and beyond the last step if the last step was
shortened by the error control. integrate_n_steps did not reach the end
point for negative step sizes and left start_state at the last but one
observation point.
---
 .../integrate/detail/integrate_const.hpp      | 29 ++++++-------------
 .../integrate/detail/integrate_n_steps.hpp    |  3 +-
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..c559cf0 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -120,9 +120,9 @@ size_t integrate_const(
     int obs_step( 1 );
     int real_step( 0 );
     
-    while( less_eq_with_sign( static_cast<Time>(time+dt) , end_time , dt ) )
+    while( less_eq_with_sign( time , end_time , dt ) )
     {
-        while( less_eq_with_sign( time , st.current_time() , dt ) )
+        if( less_eq_with_sign( time , st.current_time() , dt ) )
         {
             st.calc_state( time , start_state );
             obs( start_state , time );
@@ -131,31 +131,20 @@ size_t integrate_const(
             // we need clumsy type analysis to get boost units working here
             time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
         }
-        // we have not reached the end, do another real step
-        if( less_with_sign( static_cast<Time>(st.current_time()+st.current_time_step()) ,
-                            end_time ,
-                            st.current_time_step() ) )
+        // the next observation point is not reached yet, do another real step
+        else if( less_with_sign( static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                 end_time ,
+                                 st.current_time_step() ) )
         {
-            while( less_eq_with_sign( st.current_time() , time , dt ) )
-            {
-                st.do_step( system );
-                ++real_step;
-            }
+            st.do_step( system );
+            ++real_step;
         }
-        else if( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
+        else
         { // do the last step ending exactly on the end point
             st.initialize( st.current_state() , st.current_time() , end_time - st.current_time() );
             st.do_step( system );
             ++real_step;
         }
-        
-    }
-    // last observation, if we are still in observation interval
-    // might happen due to finite precision problems when computing the the time
-    if( less_eq_with_sign( time , end_time , dt ) )
-    {
-        st.calc_state( time , start_state );
-        obs( start_state , time );
     }
     
     return real_step;
diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..154957e 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -137,7 +137,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
@@ -148,6 +148,7 @@ Time integrate_n_steps(
 
     // observation at final point
     obs( st.current_state() , end_time );
+    boost::numeric::odeint::copy( st.current_state() , start_state );
 
     return time;
 }
-- 
2.43.0


From d48df865f2bc3fe1bac2a2dc5d64ff655aa85e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 02/31] fix: integrate_n_steps with dense output steppers could
 observe the end point twice

If rounding moves the time of the last step slightly beyond the end time,
the interpolation loop observed one point too many.
---
 .../boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 154957e..d8cd5d0 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -112,7 +112,7 @@ Time integrate_n_steps(
 
     while( step < num_of_steps )
     {
-        while( less_with_sign( time , st.current_time() , st.current_time_step() ) )
+        while( ( step < num_of_steps ) && less_with_sign( time , st.current_time() , st.current_time_step() ) )
         {
             st.calc_state( time , start_state );
             obs( start_state , time );
-- 
2.43.0


From 99c2cd15ffa307bd69bc4c08c45aed0dfa504c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 03/31] fix: integrate_times with dense output observes
 repeated start times before the first step

---
 .../boost/numeric/odeint/integrate/detail/integrate_times.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..e0e7299 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -140,6 +140,9 @@ size_t integrate_times(
 
     st.initialize( start_state , *start_time , dt );
     obs( start_state , *start_time++ );
+    // further observations at the start time do not need a step
+    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , st.current_time_step() ) )
+        obs( start_state , *start_time++ );
 
     size_t count = 0;
     while( start_time != end_time )
-- 
2.43.0


From 3a4d80c7ac0f7c4d391775ca018b4d5a82bdd5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:12 +0000
Subject: [PATCH 04/31] fix: FSAL stepper initialize() sizes the stored
 derivative before writing it

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..7ceb5d4 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -286,6 +286,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -294,6 +295,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From 749544c3c645e4cabd7e578c2848b1ed8c08d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:04 +0000
Subject: [PATCH 05/31] fix: controlled FSAL stepper initialize() sizes the
 stored derivative before writing it

---
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..7b8e466 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -799,6 +799,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -815,6 +816,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From a9b14e5e88c5b49c291a9ceef9bb38c5de5f62b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:04 +0000
Subject: [PATCH 06/31] fix: controlled FSAL stepper try_step( system , in , t
 , out , dt ) did not compile

---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 7b8e466..c77bc3a 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -682,7 +682,13 @@ public:
         {
             initialize( system , in , t );
         }
-        return try_step( system , in , m_dxdt.m_v , t , out , dt );
+        m_dxdt_new_resizer.adjust_size( in , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_new_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        controlled_step_result res = try_step( system , in , m_dxdt.m_v , t , out , m_dxdtnew.m_v , dt );
+        if( res == success )
+        {
+            boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
+        }
+        return res;
     }
 
 
-- 
2.43.0


From 57d16c7b6a45a9740aacb75f297982ff7ebda464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:04 +0000
Subject: [PATCH 07/31] fix: controlled FSAL stepper reused a stale derivative
 after a try_step with caller supplied derivative

---
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index c77bc3a..2cf0c61 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -688,6 +688,7 @@ public:
         {
             boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
         }
+        m_first_call = false;
         return res;
     }
 
@@ -759,6 +760,7 @@ public:
     controlled_step_result try_step( System system , const StateIn &in , const DerivIn &dxdt_in , time_type &t ,
             StateOut &out , DerivOut &dxdt_out , time_type &dt )
     {
+        m_first_call = true; // the stored derivative does not belong to the state the caller continues from
         unwrapped_step_adjuster &step_adjuster = m_step_adjuster;
         if( !step_adjuster.check_step_size_limit(dt) )
         {
@@ -907,7 +909,9 @@ private:
         {
             initialize( system , x , t );
         }
-        return try_step( system , x , m_dxdt.m_v , t , dt );
+        controlled_step_result res = try_step( system , x , m_dxdt.m_v , t , dt );
+        m_first_call = false;
+        return res;
     }
 
 
-- 
2.43.0


From d0b650687ce9c59111402f2f6f9db3419e21ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:04 +0000
Subject: [PATCH 08/31] fix: controlled FSAL stepper adjust_size() also resizes
 the underlying stepper

---
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 2cf0c61..60b0ae3 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -851,6 +851,7 @@ public:
         resize_m_dxdt_impl( x );
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From 2971b3a3dcec296e79b51f418bc66dd499b1f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 09/31] fix: dense output of plain steppers returns the current
 state at the current time

---
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..76d72e6 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -145,6 +145,7 @@ public:
         if( t == current_time() )
         {
             boost::numeric::odeint::copy( get_current_state() , x );
+            return;
         }
         m_stepper.calc_state( x , t , get_old_state() , m_t_old , get_current_state() , m_t );
     }
-- 
2.43.0


From 39380e3f329c78a779dd40de3cf8a7a66156409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 10/31] fix: dense_output_runge_kutta::adjust_size() did not
 compile

---
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 76d72e6..18a252b 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -170,7 +170,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -380,7 +380,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
-- 
2.43.0


From 67e71030a270cd691126f871c4eec28b6c9bd44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 11/31] fix: times_iterator must not dereference an empty time
 range nor interpolate before the first step

---
 .../odeint/iterator/impl/times_iterator_impl.hpp   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..342636a 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -83,7 +83,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , ( t_start == t_end ) ? time_type() : static_cast< time_type >( *t_start ) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +181,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , ( t_start == t_end ) ? time_type() : static_cast< time_type >( *t_start ) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +301,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , ( t_start == t_end ) ? time_type() : static_cast< time_type >( *t_start ) , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( ( t_start == t_end ) ? time_type() : static_cast< time_type >( *(t_end-1) ) ) ,
               m_state( &s )
         {
             if( t_start != t_end )
@@ -343,7 +343,11 @@ namespace odeint {
                     }
                     st.do_step( this->m_system );
                 }
-                st.calc_state( this->m_t , *( this->m_state ) );
+                // without a step behind it there is nothing to interpolate
+                if( detail::less_with_sign( this->m_t , st.current_time() , this->m_dt ) )
+                    st.calc_state( this->m_t , *( this->m_state ) );
+                else
+                    boost::numeric::odeint::copy( st.current_state() , *( this->m_state ) );
             } else {
                 this->m_at_end = true;
             }
-- 
2.43.0


From cc30df7689146813aaea610b2660db1f2934e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 12/31] fix: extrapolation_stepper must allow in-place steps

---
 .../odeint/stepper/extrapolation_stepper.hpp  | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..939a786 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -175,14 +175,21 @@ class extrapolation_stepper : public explicit_error_stepper_base
         m_resizer.adjust_size(
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
+        m_xout_resizer.adjust_size(
+            in, detail::bind( &stepper_type::template resize_m_xout< StateIn >,
+                              detail::ref( *this ), detail::_1 ) );
         size_t k = 0;
+        // in and out may be the same, hence out is written only at the end
         m_midpoint.set_steps( m_interval_sequence[k] );
-        m_midpoint.do_step( system, in, dxdt, t, out, dt );
+        m_midpoint.do_step( system, in, dxdt, t, m_xout.m_v, dt );
         for ( k = 1; k <= m_k_max; ++k )
         {
             m_midpoint.set_steps( m_interval_sequence[k] );
             m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
-            extrapolate( k, m_table, m_coeff, out );
+            if ( k < m_k_max )
+                extrapolate( k, m_table, m_coeff, m_xout.m_v, m_xout.m_v );
+            else
+                extrapolate( k, m_table, m_coeff, m_xout.m_v, out );
         }
     }
 
@@ -190,13 +197,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
     void do_step_impl_io( System system, StateInOut &inout, const DerivIn &dxdt,
                           time_type t, time_type dt )
     {
-        // special care for inout
-        m_xout_resizer.adjust_size(
-            inout,
-            detail::bind( &stepper_type::template resize_m_xout< StateInOut >,
-                          detail::ref( *this ), detail::_1 ) );
-        do_step_impl( system, inout, dxdt, t, m_xout.m_v, dt );
-        boost::numeric::odeint::copy( m_xout.m_v, inout );
+        do_step_impl( system, inout, dxdt, t, inout, dt );
     }
 
     template < class System, class StateInOut, class DerivIn >
@@ -218,6 +219,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
     template < class StateIn > void adjust_size( const StateIn &x )
     {
         resize_impl( x );
+        resize_m_xout( x );
         m_midpoint.adjust_size( x );
     }
 
@@ -237,9 +239,10 @@ class extrapolation_stepper : public explicit_error_stepper_base
             m_xout, x, typename is_resizeable< state_type >::type() );
     }
 
-    template < class StateInOut >
+    template < class StateIn, class StateOut >
     void extrapolate( size_t k, state_table_type &table,
-                      const value_matrix &coeff, StateInOut &xest )
+                      const value_matrix &coeff, const StateIn &xin,
+                      StateOut &xest )
     /* polynomial extrapolation, see http://www.nr.com/webnotes/nr3web21.pdf
        uses the obtained intermediate results to extrapolate to dt->0
     */
@@ -255,7 +258,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
                                               -coeff[k][j] ) );
         }
         stepper_base_type::m_algebra.for_each3(
-            xest, table[0].m_v, xest,
+            xest, table[0].m_v, xin,
             typename operations_type::template scale_sum2<
                 value_type, value_type >( val1 + coeff[k][0], -coeff[k][0] ) );
     }
-- 
2.43.0


From 1ce16a78e55adf9af14faab1224166a02c0056a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 13/31] fix: extrapolation_stepper::adjust_size() also resizes
 the derivative of the base class

---
 include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 939a786..cd59eae 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -221,6 +221,7 @@ class extrapolation_stepper : public explicit_error_stepper_base
         resize_impl( x );
         resize_m_xout( x );
         m_midpoint.adjust_size( x );
+        stepper_base_type::adjust_size( x );
     }
 
   private:
-- 
2.43.0


From c3126360d414a97968e0537b2c7bd2f5a9b1a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:00 +0000
Subject: [PATCH 14/31] fix: copies of adams_moulton must not refer to the
 algebra of the original

---
 include/boost/numeric/odeint/stepper/adams_moulton.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..baa7b44 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -97,6 +97,11 @@ public :
       m_algebra_instance() , m_algebra( algebra )
     { }
 
+    adams_moulton( const adams_moulton &stepper )
+    : m_coefficients( stepper.m_coefficients ) , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance( stepper.m_algebra ) , m_algebra( m_algebra_instance )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From 7dfd66a192d02429dd093abdb79f827ff81e44bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 15/31] fix: bulirsch_stoer_dense_out did not reduce repeatedly
 rejected steps when integrating backward

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..1a76b5d 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -42,6 +42,7 @@
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resizer.hpp>
 #include <boost/numeric/odeint/util/unit_helper.hpp>
+#include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
 
 #include <boost/numeric/odeint/integrate/max_step_checker.hpp>
 
@@ -291,7 +292,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || boost::numeric::odeint::detail::less_with_sign(new_h, dt, dt) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From 01f3e896e7599f3ef48ac2e153a8886845a92d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 16/31] fix: Bulirsch-Stoer steppers compared the work per step
 with the wrong sign when integrating backward

---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp         | 2 +-
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index 02c3749..f5fd6e1 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -234,7 +234,7 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( dt ) > 0 ? h_opt[k] : -h_opt[k] );
 
                 if( (k == m_current_k_opt-1) || m_first )
                 { // convergence before k_opt ?
diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 1a76b5d..0479b19 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -199,7 +199,7 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( dt ) > 0 ? h_opt[k] : -h_opt[k] );
 
                 m_k_final = k;
 
-- 
2.43.0


From d17b11d7daf9cff225a65ca6b213febf11d7b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 17/31] fix: bulirsch_stoer compared the first step size with
 an uninitialised value

---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index f5fd6e1..03e7f31 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -94,7 +94,7 @@ public:
         time_type max_dt = static_cast<time_type>(0))
         : m_error_checker( eps_abs , eps_rel , factor_x, factor_dxdt ) , m_midpoint() ,
           m_last_step_rejected( false ) , m_first( true ) ,
-          m_max_dt(max_dt) ,
+          m_dt_last() , m_t_last() , m_max_dt(max_dt) ,
           m_interval_sequence( m_k_max+1 ) ,
           m_coeff( m_k_max+1 ) ,
           m_cost( m_k_max+1 ) ,
-- 
2.43.0


From 3aa6d2addd56feb38454dde99b289e09728e2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 18/31] fix: bulirsch_stoer_dense_out reset() must reset the
 target order (read past the cost table in the first step)

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 0479b19..b9927d1 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -382,6 +382,8 @@ public:
     {
         m_first = true;
         m_last_step_rejected = false;
+        // crude estimate of optimal order, as in the constructor
+        m_current_k_opt = 4;
     }
 
     template< class StateIn >
-- 
2.43.0


From 95b1799531829041acc1b13f55c50a3283b8f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 19/31] fix: sign of the rosenbrock4 coefficient d4 (first
 instead of fourth order for non-autonomous systems)

---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From 6dd5de66ffc618f6b8cceb4a004453635c137413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 20/31] fix: rosenbrock4_controller::adjust_size() also resizes
 the underlying stepper

---
 include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..b8a1256 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -183,6 +183,7 @@ public:
     {
         resize_m_xerr( x );
         resize_m_xnew( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From b3420654458f8b0918c86baed29aed628482f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 21/31] fix: implicit_euler factorized its already factorized
 matrix again in every further Newton iteration

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..73a56a9 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -96,6 +96,7 @@ public:
         m_jacobi.m_v *= dt;
         m_jacobi.m_v -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
+        factorize( m_jacobi.m_v );
         solve( m_b.m_v , m_jacobi.m_v );
 
         m_x.m_v = x - m_b.m_v;
@@ -141,10 +142,15 @@ private:
     }
 
 
-    void solve( state_type &x , matrix_type &m )
+    void factorize( matrix_type &m )
     {
         int res = boost::numeric::ublas::lu_factorize( m , m_pm.m_v );
         if( res != 0 ) exit(0);
+    }
+
+    // m has been factorized before
+    void solve( state_type &x , matrix_type &m )
+    {
         boost::numeric::ublas::lu_substitute( m , m_pm.m_v , x );
     }
 
-- 
2.43.0


From 1b9d7cb2afb66d36bbfbc15ee2500dc8eee67355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:23 +0000
Subject: [PATCH 22/31] fix:
 controlled_adams_bashforth_moulton::initialize_controlled recorded the
 proposed instead of the performed step

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..7bbbcf4 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -184,6 +184,7 @@ public:
 
         for( size_t i=0 ; i<order_value; ++i )
         {
+            const time_type t_prev = t;
             do
             {
                 res = stepper.try_step( system, inOut, t, dt );
@@ -192,7 +193,8 @@ public:
 
             system( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            // a successful try_step replaces dt by the next step size
+            coeff.predict(t_prev, t - t_prev);
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From 885aecc912b6f54eea91a9864ab8e6202a4c32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:20 +0000
Subject: [PATCH 23/31] fix: controlled_adams_bashforth_moulton chose its order
 from uninitialised error estimates for array states

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 7bbbcf4..fbdddcd 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -156,6 +156,7 @@ public:
 
     controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
     :m_stepper(),
+    m_xerr(), // the order adjuster reads all of the error estimates
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
     m_step_adjuster( step_adjuster ), m_order_adjuster()
     {};
-- 
2.43.0


From f68e9012f0960f1edea329ae561674ac7fafd31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:36 +0000
Subject: [PATCH 24/31] fix: make_controlled converted the maximum step to the
 value type of the stepper

---
 .../stepper/generation/generation_controlled_runge_kutta.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
index bad2bed..6c2c65c 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
@@ -36,7 +36,7 @@ struct controller_factory< Stepper , controlled_runge_kutta< Stepper > >
     typedef typename controller_type::error_checker_type error_checker_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-- 
2.43.0


From 410e68ad034580c6e8e8f3d4172dc28dedb2dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 25/31] fix: make_controlled discarded the
 adaptive_adams_bashforth_moulton stepper it was given

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 5 +++--
 .../generation_controlled_adams_bashforth_moulton.hpp       | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index fbdddcd..4b0bb30 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -154,8 +154,9 @@ public:
     typedef typename stepper_type::coeff_type coeff_type;
     typedef controlled_adams_bashforth_moulton< ErrorStepper , StepAdjuster , OrderAdjuster , Resizer > controlled_stepper_type;
 
-    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
-    :m_stepper(),
+    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type() ,
+        const stepper_type &stepper = stepper_type())
+    :m_stepper( stepper ),
     m_xerr(), // the order adjuster reads all of the error estimates
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
     m_step_adjuster( step_adjuster ), m_order_adjuster()
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index ca95a1f..735428b 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -38,17 +38,17 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
     typedef controlled_adams_bashforth_moulton< stepper_type > controller_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-        return controller_type(step_adjuster_type(abs_error, rel_error));
+        return controller_type(step_adjuster_type(abs_error, rel_error), stepper);
     }
 
     controller_type operator()( value_type abs_error , value_type rel_error ,
                                 time_type max_dt, const stepper_type &stepper )
     {
-        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt));
+        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt), stepper);
     }
 };
 
-- 
2.43.0


From aa63220670bbe0eb0bad61a2ebeb1f46ed4a8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 26/31] fix: copying an openmp_state copied every part to the
 outer vector instead of the part of the target

---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..b8d697e 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -93,7 +93,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From 997065fc11d5dc3c0ddaa0e572fa5d1ecbb1a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 27/31] fix: the adaptive Adams-Bashforth-Moulton steppers did
 not accept systems and starting steppers wrapped in boost::ref

---
 .../stepper/adaptive_adams_bashforth_moulton.hpp | 16 ++++++++++------
 .../controlled_adams_bashforth_moulton.hpp       |  9 ++++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..f6a715f 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -110,9 +110,10 @@ public:
     template< class System >
     void do_step(System system, const state_type &in, time_type t, state_type &out, time_type dt , state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         do_step_impl(system, in, t, out, dt, xerr);
         
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
         m_coeff.confirm();
 
@@ -125,17 +126,19 @@ public:
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        typename odeint::unwrap_reference< ExplicitStepper >::type &st = stepper;
+        typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         dt = dt/static_cast< time_type >(order_value);
 
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
-        system( inOut , m_dxdt.m_v , t );
+        sys( inOut , m_dxdt.m_v , t );
         for( size_t i=0 ; i<order_value; ++i )
         {
-            stepper.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
+            st.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
             
-            system( inOut , m_dxdt.m_v , t + dt);
+            sys( inOut , m_dxdt.m_v , t + dt);
             
             m_coeff.predict(t, dt);
             m_coeff.do_step(m_dxdt.m_v);
@@ -166,6 +169,7 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
@@ -174,7 +178,7 @@ public:
         m_coeff.predict(t, dt);
         if (m_coeff.m_steps_init == 1)
         {
-            system(in, m_dxdt.m_v, t);
+            sys(in, m_dxdt.m_v, t);
             m_coeff.do_step(m_dxdt.m_v, 1);
         }
 
@@ -185,7 +189,7 @@ public:
                 typename Operations::template scale_sum2<double, double>(1.0, dt*m_coeff.g[i]*m_coeff.beta[0][i]));
         }
 
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
 
         this->m_algebra.for_each3(out, out, m_coeff.phi[0][eO].m_v,
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 4b0bb30..e8ced29 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -177,6 +177,8 @@ public:
     template< class ExplicitStepper, class System >
     void initialize_controlled(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type &dt)
     {
+        typename odeint::unwrap_reference< ExplicitStepper >::type &st = stepper;
+        typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         coeff_type &coeff = m_stepper.coeff();
 
@@ -189,11 +191,11 @@ public:
             const time_type t_prev = t;
             do
             {
-                res = stepper.try_step( system, inOut, t, dt );
+                res = st.try_step( system, inOut, t, dt );
             }
             while(res != success);
 
-            system( inOut , m_dxdt.m_v , t );
+            sys( inOut , m_dxdt.m_v , t );
             
             // a successful try_step replaces dt by the next step size
             coeff.predict(t_prev, t - t_prev);
@@ -237,7 +239,8 @@ public:
 
         if(dt / dtPrev >= step_adjuster_type::threshold())
         {
-            system(out, m_dxdt.m_v, t+dtPrev);
+            typename odeint::unwrap_reference< System >::type &sys = system;
+            sys(out, m_dxdt.m_v, t+dtPrev);
 
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
-- 
2.43.0


From 9b54f3c1151396c2d04479fcf29bd5ea74d969bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:23 +0000
Subject: [PATCH 28/31] fix: integrate_adaptive with dense output steppers
 could loop forever when the time of the last step is rounded beyond the end
 time

---
 .../odeint/integrate/detail/integrate_adaptive.hpp  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 7516d44..f00d6c5 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -132,16 +132,17 @@ size_t integrate_adaptive(
 
     while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
     {
-        while( less_eq_with_sign( static_cast<Time>(st.current_time() + st.current_time_step()) ,
+        if( !less_eq_with_sign( static_cast<Time>(st.current_time() + st.current_time_step()) ,
                end_time ,
                st.current_time_step() ) )
         {   //make sure we don't go beyond the end_time
-            obs( st.current_state() , st.current_time() );
-            st.do_step( system );
-            ++count;
+            // calculate time step to arrive exactly at end time
+            st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
         }
-        // calculate time step to arrive exactly at end time
-        st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+        // always make the step: current_time + (end_time - current_time) might be rounded to a time beyond end_time
+        obs( st.current_state() , st.current_time() );
+        st.do_step( system );
+        ++count;
     }
     obs( st.current_state() , st.current_time() );
     // overwrite start_state with the final point
-- 
2.43.0


From cd664f4f2406342214cde91613e3e39d16ba7359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:31 +0000
Subject: [PATCH 29/31] fix: adams_bashforth_moulton applied its corrector to a
 history of another size after the size of the state had changed

---
 .../odeint/stepper/adams_bashforth_moulton.hpp       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f3edce1..f5d9c75 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -139,6 +139,7 @@ public :
     template< class ExplicitStepper , class System , class StateIn >
     void initialize( ExplicitStepper explicit_stepper , System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( explicit_stepper , system , x , t , dt );
     }
 
@@ -146,6 +147,7 @@ public :
     template< class System , class StateIn >
     void initialize( System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( system , x , t , dt );
     }
 
@@ -162,9 +164,12 @@ private:
     template< typename System , typename StateInOut >
     void do_step_impl1( System system , StateInOut &x , time_type t , time_type dt )
     {
+        // the history belongs to states of the old size
+        if( m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+            m_adams_bashforth.reset();
+
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
             m_adams_bashforth.do_step( system , x , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
         }
@@ -177,9 +182,12 @@ private:
     template< typename System , typename StateIn , typename StateInOut >
     void do_step_impl2( System system , StateIn const &in , time_type t , StateInOut & out , time_type dt )
     {
+        // the history belongs to states of the old size
+        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) ) )
+            m_adams_bashforth.reset();
+
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );        
             m_adams_bashforth.do_step( system , in , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
         }
-- 
2.43.0


From b2d533eed15e51247cc644e834091128b3f13e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:31 +0000
Subject: [PATCH 30/31] fix: adaptive_adams_bashforth_moulton accessed the
 history beyond its size after the size of the state had grown

---
 .../odeint/stepper/adaptive_adams_bashforth_moulton.hpp   | 1 +
 .../odeint/stepper/detail/adaptive_adams_coefficients.hpp | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index f6a715f..4a5d70c 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -170,6 +170,7 @@ public:
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_coeff.adjust_size( in );
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
diff --git a/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp b/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
index c1029a1..8fe7b5f 100644
--- a/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
@@ -97,6 +97,14 @@ public:
         gs[13] = 40.0/8547;
     };
 
+    // has to be called before a step, starts over if the history belongs to states of another size
+    template< class StateType >
+    void adjust_size( const StateType &x )
+    {
+        if( m_phi_resizer.adjust_size( x , detail::bind( &aac_type::template resize_phi_impl< StateType > , detail::ref( *this ) , detail::_1 ) ) )
+            reset();
+    };
+
     void predict(time_type t, time_type dt)
     {
         using std::abs;
-- 
2.43.0


From 353092bc1af834b0c9bffa25d243b963208326d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:38 +0000
Subject: [PATCH 31/31] fix: adams_bashforth::adjust_size did not adjust the
 temporaries of the initializing stepper

---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..ba60657 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -177,6 +177,7 @@ public :
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
-- 
2.43.0

