From 942447f8dff08cf7ceb8cc46a40c251fa7534a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 01/87] fix: adding or subtracting tensors no longer writes
 into the left operand

broadcast_tensor returns a tensor that shares the operand's storage when no
expansion is needed, so a + b and a - b modified a.
---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8f8e552..baf619f 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -578,7 +578,7 @@ namespace ceras
     Tsor add( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        Tsor llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy();
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x += y; } );
@@ -609,7 +609,7 @@ namespace ceras
     Tsor minus( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        Tsor llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy();
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x -= y; } );
-- 
2.43.0


From 4db593f6aa741ca2f6aebf2675e079d5ec9f9566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 02/87] fix: max of a floating point tensor with only negative
 values

numeric_limits::min() is the smallest positive floating point value.
---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index baf619f..1ede3eb 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1005,7 +1005,7 @@ namespace ceras
         typedef typename Tsor::value_type value_type;
         better_assert( tsor.size() != 0, "tensor::max error: input tensor should not be empty!" );
         if ( tsor.size() == 0 ) return value_type{0};
-        value_type ans = std::numeric_limits<value_type>::min();
+        value_type ans = std::numeric_limits<value_type>::lowest();
         for ( auto idx : range( tsor.size() ) )
             ans = std::max( tsor[idx], ans );
         return ans;
@@ -1187,7 +1187,7 @@ namespace ceras
     template <Tensor Tsor>
     Tsor max( Tsor const& ts, unsigned long axis, bool keepdims=false ) noexcept
     {
-        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::min(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
+        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::lowest(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
     }
 
     template <Tensor Tsor>
-- 
2.43.0


From 83a49291f3cf19f51dbbc67231f8da4ecf263529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 03/87] fix: tensor repeat mixed iterators of two temporary
 shape vectors

---
 include/tensor.tcc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 1ede3eb..51565af 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -755,9 +755,8 @@ namespace ceras
             for  ( auto idx : range(n) )
                 std::copy( tsor.begin(), tsor.end(), itor + idx * tsor.size() );
 
-            std::vector<unsigned long>  new_shape;
-            new_shape.push_back( n );
-            std::copy( tsor.shape().begin(), tsor.shape().end(), std::back_inserter( new_shape ) );
+            std::vector<unsigned long>  new_shape = tsor.shape();
+            new_shape.insert( new_shape.begin(), n );
             ans.reshape( new_shape );
         }
 
-- 
2.43.0


From 439f7dc229ffbc6af96f9e072fd5b3fe0d59e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 04/87] fix: concatenating tensors of different ranks mixed
 iterators of temporary shape vectors

---
 include/tensor.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 51565af..18678e2 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -919,10 +919,12 @@ namespace ceras
         // axis alignment
         if ( lhs.ndim() > rhs.ndim() )
         {
-            unsigned long const dims_to_repeat = std::accumulate( lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
+            auto const& lhs_shape = lhs.shape();
+            auto const& rhs_shape = rhs.shape();
+            std::vector<unsigned long> new_shape{ lhs_shape.begin(), lhs_shape.begin()+lhs.ndim()-rhs.ndim() };
+            unsigned long const dims_to_repeat = std::accumulate( new_shape.begin(), new_shape.end(), 1UL, [](auto x, auto y ){ return x*y; } );
             auto new_rhs = repeat( rhs, dims_to_repeat );
-            std::vector<unsigned long> new_shape{ lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim() };
-            std::copy( rhs.shape().begin(), rhs.shape().end(), std::back_inserter( new_shape ) );
+            std::copy( rhs_shape.begin(), rhs_shape.end(), std::back_inserter( new_shape ) );
             new_rhs.reshape( new_shape );
             return concatenate( lhs, new_rhs, axis );
         }
-- 
2.43.0


From 265409f5bb04e9b83ad8b42c65b3be196e0b6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 05/87] fix: reshape to an empty shape read before the
 beginning of the shape

This is what reducing a 1-D tensor along its only axis does.
---
 include/tensor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 305226a..867eb9d 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -354,7 +354,7 @@ namespace ceras
         constexpr self_type& reshape( std::vector<unsigned long> const& new_shape )
         {
             std::vector<unsigned long> _new_shape = new_shape;
-            if ( *(_new_shape.rbegin()) == static_cast<unsigned long>( -1 ) )
+            if ( !_new_shape.empty() && *(_new_shape.rbegin()) == static_cast<unsigned long>( -1 ) )
                 *(_new_shape.rbegin()) = (*this).size() / std::accumulate( _new_shape.begin(), _new_shape.end()-1, 1Ul, []( unsigned long x, unsigned long y ){ return x*y; } );
 
             unsigned long const new_size = std::accumulate( _new_shape.begin(), _new_shape.end(), 1UL, [](auto x, auto y){ return x*y; } );
-- 
2.43.0


From bdbf87683b42ee6f8ea92c7e0e336593ce1dbd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 06/87] fix: poisson truncated the rates to integers and broke
 on a zero rate

Only the result type of std::poisson_distribution is an integer, the mean is a
double that has to be positive.
---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 18678e2..e4c8da7 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -859,8 +859,8 @@ namespace ceras
         Tsor ans{ tsor.shape() };
         for ( auto idx : range( ans.size() ) ) // Note: cannot parallel here
         {
-            long const v = static_cast<long>(tsor[idx]);
-            ans[idx] = distribution( random_generator, std::poisson_distribution<long>::param_type(v) );
+            double const v = static_cast<double>(tsor[idx]);
+            ans[idx] = v > 0.0 ? distribution( random_generator, std::poisson_distribution<long>::param_type(v) ) : 0;
         }
         return ans;
     }
-- 
2.43.0


From 421de6c33a7fbc18a2f86f5cb64efd7f85170ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 07/87] fix: var of a tensor is the mean of the squared
 deviations, not their sum

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index e4c8da7..799fefb 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1176,7 +1176,7 @@ namespace ceras
     typename Tsor::value_type var( Tsor const& ts ) noexcept
     {
         auto x = ts - mean(ts);
-        return std::inner_product( x.begin(), x.end(), x.begin(), typename Tsor::value_type{0} );
+        return std::inner_product( x.begin(), x.end(), x.begin(), typename Tsor::value_type{0} ) / static_cast<typename Tsor::value_type>( x.size() );
     }
 
     template <Tensor Tsor> requires std::floating_point<typename Tsor::value_type>
-- 
2.43.0


From 167da9604917ddf5a69d9bbfe08fa50a33e7759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 08/87] fix: save tensors with enough digits to read back the
 same values

---
 include/tensor.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 799fefb..c36103a 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1294,11 +1294,11 @@ namespace ceras
         std::ofstream ofs{ file_name };
         typedef typename Tsor::value_type value_type;
         if constexpr (std::is_same_v<value_type, float> )
-            ofs.precision( 8 );
+            ofs.precision( std::numeric_limits<float>::max_digits10 );
         else if constexpr (std::is_same_v<value_type, double> )
-            ofs.precision( 15 );
+            ofs.precision( std::numeric_limits<double>::max_digits10 );
         else if constexpr (std::is_same_v<value_type, long double> )
-            ofs.precision( 25 );
+            ofs.precision( std::numeric_limits<long double>::max_digits10 );
 
         write_tensor( ofs, tsor );
         ofs.close();
-- 
2.43.0


From 0e863518fa39b1965fa3a0be59d6ec44fc36d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/87] fix: row and column iterators of a const view_2d did
 not compile

---
 include/utils/view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/view.hpp b/include/utils/view.hpp
index cced0b7..13a906d 100644
--- a/include/utils/view.hpp
+++ b/include/utils/view.hpp
@@ -67,6 +67,7 @@ namespace ceras
         constexpr const T* data() const noexcept { return data_; }
 
         constexpr T* begin() noexcept { return data_; }
+        constexpr const T* begin() const noexcept { return data_; }
         constexpr const T* end() const noexcept { return begin()+size(); }
 
         constexpr unsigned long row() const noexcept { return row_; }
-- 
2.43.0


From 836f76e23e64e09ee891caf252ff62ed5e6f7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 10/87] fix: move assignment of ceras::vector leaked the
 replaced elements

---
 include/utils/vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 4cec322..95cb6c5 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -33,6 +33,9 @@ namespace ceras
 
         constexpr vector& operator = ( vector && other ) noexcept
         {
+            if ( this == &other )
+                return *this;
+            clear();
             size_ = other.size_;
             data_ = other.data_;
             other.size_ = 0;
-- 
2.43.0


From 6d071cecec019a93db5597943412219e47b825bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 11/87] fix: parallel executed some indices twice when the
 range does not start at zero

---
 include/utils/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 5320ffe..bf3fe00 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -62,7 +62,7 @@ namespace ceras
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1), dim_last );
+            job_slice( std::min( static_cast<Integer_Type>( tasks_per_thread*(total_cores-1) + dim_first ), dim_last ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From 82a2627a13735d2c917ee95495a6bd83d5dda368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 12/87] fix: the memory cache kept handing out blocks that gc
 had released

---
 include/utils/cached_allocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index d9be9a3..3ba86ec 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -104,6 +104,7 @@ namespace ceras
                 std::allocator<std::byte> alloc;
                 for ( auto& [size, address] : reserved_memory )
                     alloc.deallocate( address, size );
+                reserved_memory.clear();
 
                 return true;
             }
-- 
2.43.0


From 6f664ea71c167a6a7b65ee886d9ada0e43687e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 13/87] fix: operator > of place holders compared with <

---
 include/place_holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/place_holder.hpp b/include/place_holder.hpp
index 4c8eb06..0c6b4b9 100644
--- a/include/place_holder.hpp
+++ b/include/place_holder.hpp
@@ -118,7 +118,7 @@ namespace ceras
     template< Place_Holder Ph >
     bool operator > ( Ph const& lhs, Ph const& rhs )
     {
-        return lhs.id() < rhs.id();
+        return lhs.id() > rhs.id();
     }
 
     template< Place_Holder Ph >
-- 
2.43.0


From f1f370dcb9c80e1506d0cf14120255a96c76a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 14/87] fix: buffered_allocator allocated sizeof(T) times too
 much and released another size

---
 include/utils/buffered_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/buffered_allocator.hpp b/include/utils/buffered_allocator.hpp
index 1ea9200..1faf9f2 100644
--- a/include/utils/buffered_allocator.hpp
+++ b/include/utils/buffered_allocator.hpp
@@ -43,7 +43,7 @@ namespace ceras
             else // default heap allocation
             {
                 std::allocator<T> a;
-                return a.allocate( bytes );
+                return a.allocate( n );
             }
         }
 
-- 
2.43.0


From a16c7567a521418704a1dfdcf2487ca4d9c6cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 15/87] fix: tensors with a buffered allocator stored their
 elements in a dead temporary

ceras::vector allocated from a local allocator object, whose buffer is gone
when the function returns.
---
 include/utils/vector.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 95cb6c5..e3545a2 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -22,19 +22,21 @@ namespace ceras
 
         unsigned long size_;
         pointer data_;
+        [[no_unique_address]] allocator_type alloc_; // an allocator may own the storage it hands out
 
-        constexpr vector( vector && other ) noexcept
+        constexpr vector( vector && other ) noexcept : size_{ 0 }, data_{ nullptr }
         {
-            size_ = other.size_;
-            data_ = other.data_;
-            other.size_ = 0;
-            other.data_ = nullptr;
+            *this = std::move( other );
         }
 
         constexpr vector& operator = ( vector && other ) noexcept
         {
             if ( this == &other )
                 return *this;
+
+            if constexpr ( !std::is_empty_v<allocator_type> ) // storage belongs to the allocator of the other vector
+                return *this = static_cast<vector const&>( other );
+
             clear();
             size_ = other.size_;
             data_ = other.data_;
@@ -82,8 +84,7 @@ namespace ceras
         {
             if ( !empty() )
             {
-                allocator_type alloc;
-                alloc.deallocate( data_, size_ );
+                alloc_.deallocate( data_, size_ );
             }
             data_ = nullptr;
             size_ = 0;
@@ -99,8 +100,7 @@ namespace ceras
             if ( size != 0 )
             {
                 size_ = size;
-                allocator_type alloc;
-                data_ = alloc.allocate( size_ );
+                data_ = alloc_.allocate( size_ );
             }
         }
 
-- 
2.43.0


From d4b246566327997a48c322440d9a62da808af92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 16/87] fix: a sub-expression used twice lost its inputs, as
 they were kept per copy of the operator

---
 include/operation.hpp | 70 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4734758..d71952b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -55,6 +55,8 @@ namespace ceras
         enable_id<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Unary_Operator">,
         enable_unary_serializer<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer> >
     {
+        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
+
         struct unary_operator_state
         {
             Operator op_;
@@ -62,34 +64,31 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type input_data_; // shared by all copies of this operator, as only the first copy evaluated in a run sees its input
+            tensor_type output_data_;
         };
         std::shared_ptr<unary_operator_state> state_;
 
-        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
-
-        tensor_type input_data_;
-        tensor_type output_data_;
-
         unary_operator( Operator const& op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer ) noexcept : state_{ std::make_shared<unary_operator_state>( op, forward_action, backward_action, output_shape_calculator, serializer ) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            state_->output_data_= sess.query_forward_cache( (*this).id() );
 
-            if ( output_data_.empty() )
+            if ( state_->output_data_.empty() )
             {
-                input_data_ = op().forward();
-                output_data_ = forward_action()( input_data_ );
-                sess.update_forward_cache( (*this).id(), output_data_ );
+                state_->input_data_ = op().forward();
+                state_->output_data_ = forward_action()( state_->input_data_ );
+                sess.update_forward_cache( (*this).id(), state_->output_data_ );
             }
 
-            return output_data_;
+            return state_->output_data_;
         }
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( input_data_, output_data_, grad );
+            auto const& current_gradient = backward_action()( state_->input_data_, state_->output_data_, grad );
             op().backward( current_gradient );
         }
 
@@ -106,8 +105,8 @@ namespace ceras
         Backward_Action const& backward_action() const { return state_->backward_action_; }
         Output_Shape_Calculator const& output_shape_calculator() const { return state_->output_shape_calculator_; }
         Serializer const& serializer() const { return state_->serializer_; }
-        tensor_type output_data() { return output_data_; }
-        tensor_type input_data() { return input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type input_data() { return state_->input_data_; }
 
         Operator& op() { return state_->op_; }
         Forward_Action& forward_action() { return state_->forward_action_; }
@@ -145,6 +144,8 @@ namespace ceras
         enable_id<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Binary Operator">,
         enable_binary_serializer<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>>
     {
+        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
+
         struct binary_operator_state
         {
             Lhs_Operator lhs_op_;
@@ -153,47 +154,44 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type lhs_input_data_; // shared by all copies of this operator, as only the first copy evaluated in a run sees its inputs
+            tensor_type rhs_input_data_;
+            tensor_type output_data_;
         };
         std::shared_ptr<binary_operator_state> state_;
 
-        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
-
-        tensor_type lhs_input_data_;
-        tensor_type rhs_input_data_;
-        tensor_type output_data_;
-
         binary_operator( Lhs_Operator const& lhs_op, Rhs_Operator const& rhs_op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer) noexcept :
             state_{ std::make_shared<binary_operator_state>(lhs_op, rhs_op, forward_action, backward_action, output_shape_calculator, serializer) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            state_->output_data_= sess.query_forward_cache( (*this).id() );
 
-            if ( !output_data_.empty() )
-                return output_data_;
+            if ( !state_->output_data_.empty() )
+                return state_->output_data_;
 
             static_assert( !(is_value_v<Lhs_Operator> && is_value_v<Rhs_Operator>), "Not valid for two values" );
 
             if constexpr ( is_value_v<Lhs_Operator> )
             {
-                rhs_input_data_ = rhs_op().forward();
-                lhs_input_data_ = lhs_op().forward( rhs_input_data_ );
+                state_->rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward( state_->rhs_input_data_ );
             }
             else if constexpr ( is_value_v<Rhs_Operator> )
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward( lhs_input_data_ );
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward( state_->lhs_input_data_ );
             }
             else
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward();
             }
 
-            output_data_ = forward_action()( lhs_input_data_, rhs_input_data_ );
-            sess.update_forward_cache( (*this).id(), output_data_ );
-            return output_data_;
+            state_->output_data_ = forward_action()( state_->lhs_input_data_, state_->rhs_input_data_ );
+            sess.update_forward_cache( (*this).id(), state_->output_data_ );
+            return state_->output_data_;
         }
 
         ///
@@ -201,7 +199,7 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( lhs_input_data_, rhs_input_data_, output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, state_->output_data_, grad );
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -234,9 +232,9 @@ namespace ceras
         Output_Shape_Calculator& output_shape_calculator() { return state_->output_shape_calculator_; }
         Serializer& serializer() { return state_->serializer_; }
 
-        tensor_type output_data() { return output_data_; }
-        tensor_type lhs_input_data() { return lhs_input_data_; }
-        tensor_type rhs_input_data() { return rhs_input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type lhs_input_data() { return state_->lhs_input_data_; }
+        tensor_type rhs_input_data() { return state_->rhs_input_data_; }
     }; // struct binary_operator
 
     template< typename Forward_Action, typename Backward_Action, typename Output_Shape_Calculator= identity_output_shape_calculator, typename Serializer = default_binary_expression_serializer >
-- 
2.43.0


From 9700766e1018f73eebcc119312bccc2a8c857d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 17/87] fix: trainability and regularizer of a variable are
 shared by its copies

---
 include/optimizer.hpp | 12 ++++-----
 include/variable.hpp  | 58 ++++++++++++++++++++++---------------------
 2 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 2c2afa0..31da89e 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -49,7 +49,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -94,7 +94,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -145,7 +145,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -195,7 +195,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -270,7 +270,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -340,7 +340,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto& [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     //v.data() -= learning_rate_ * (v.gradient());
                     //
diff --git a/include/variable.hpp b/include/variable.hpp
index 37d4b55..4ebd67c 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -23,14 +23,6 @@ namespace ceras
     template< Tensor Tsor >
     ceras_private::session<Tsor>& get_default_session();
 
-    template< Tensor Tsor >
-    struct variable_state
-    {
-        Tsor data_;
-        Tsor gradient_;
-        std::vector<Tsor> contexts_;
-    };
-
     template< typename Float > requires std::floating_point<Float>
     struct regularizer
     {
@@ -42,6 +34,16 @@ namespace ceras
         constexpr regularizer( value_type l1=0.0, value_type l2=0.0, bool synchronized=false ) noexcept : l1_{l1}, l2_{l2}, synchronized_{synchronized} {}
     };
 
+    template< Tensor Tsor >
+    struct variable_state
+    {
+        Tsor data_;
+        Tsor gradient_;
+        std::vector<Tsor> contexts_;
+        regularizer<typename Tsor::value_type> regularizer_;
+        bool trainable_;
+    };
+
     template< Tensor Tsor >
     struct variable : enable_id<variable<Tsor>, "Variable">
     {
@@ -49,14 +51,14 @@ namespace ceras
         typedef typename tensor_type::value_type value_type;
 
         std::shared_ptr<variable_state<tensor_type>> state_;
-        regularizer<value_type> regularizer_;
-        bool trainable_;
 
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
             (*((*this).state_)).data_ = data;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
+            (*((*this).state_)).regularizer_ = regularizer<value_type>{ l1, l2, true };
+            (*((*this).state_)).trainable_ = trainable;
 
             auto& ss = get_default_session<tensor_type>();
             ss.remember( *this );
@@ -77,16 +79,16 @@ namespace ceras
             {
                 typedef typename tensor_type::value_type value_type;
                 state.gradient_.reset( value_type{0} );
-                regularizer_.synchronized_ = false; // mark changes
+                state.regularizer_.synchronized_ = false; // mark changes
             }
             return state.data_;
         }
 
         void backward( auto const& grad ) noexcept
         {
-            if (!trainable_) return;
-
             auto& state = *((*this).state_);
+            if (!state.trainable_) return;
+
             {
                 if (state.gradient_.shape() != state.data_.shape())
                     state.gradient_.resize( state.data_.shape() );
@@ -94,20 +96,20 @@ namespace ceras
             state.gradient_ += grad; // collecting all the gradients from its children nodes, will be called mulitple times in a single backward pass
 
             // apply regularizers
-            if (!(regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
+            if (!(state.regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
             {
-                if ( regularizer_.l1_ >= eps ) // l1 regularizer
+                if ( state.regularizer_.l1_ >= eps ) // l1 regularizer
                 {
-                    value_type const factor = regularizer_.l1_;
+                    value_type const factor = state.regularizer_.l1_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += (d >= value_type{0}) ? factor : -factor; } );
                 }
-                if ( regularizer_.l2_ >= eps ) // l2 regularizer
+                if ( state.regularizer_.l2_ >= eps ) // l2 regularizer
                 {
-                    value_type const factor = regularizer_.l2_;
+                    value_type const factor = state.regularizer_.l2_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += value_type{2} * d * factor; } );
                 }
 
-                regularizer_.synchronized_ = true;
+                state.regularizer_.synchronized_ = true;
             }
         }
 
@@ -159,29 +161,29 @@ namespace ceras
             gradient().reset();
         }
 
-        bool trainable() const noexcept { return trainable_; }
-        bool& trainable() noexcept { return trainable_; }
+        bool trainable() const noexcept { return (*((*this).state_)).trainable_; }
+        bool& trainable() noexcept { return (*((*this).state_)).trainable_; }
 
-        void trainable( bool t ) { trainable_ = t; }
+        void trainable( bool t ) { (*((*this).state_)).trainable_ = t; }
 
         value_type l1_regularizer() const
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type& l1_regularizer()
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type l2_regularizer() const
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
         value_type& l2_regularizer()
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
     };//struct variable
@@ -212,7 +214,7 @@ namespace ceras
 
         std::string var_name = fmt::format( "variable_{}", var.id() );
         std::vector<std::string> var_code = data_code;
-        //variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        //variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}
         var_code.emplace_back( fmt::format( "ceras::variable<ceras::tensor<{}>> {}( {}/*tensor*/, {}/*l1 regularizer*/, {}/*l2 regularizer*/, {}/*trainable*/ );", type2string<typename Var::value_type>(), var_name, data_name, var.l1_regularizer(), var.l2_regularizer(), var.trainable()  ) );
 
         return std::forward_as_tuple( var_name, var_code );
-- 
2.43.0


From 1d8686344b66e6515ff39d39508bd45f2af50022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 18/87] fix: dividing a number by an expression did not compile

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index d71952b..481ff96 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -790,7 +790,7 @@ namespace ceras
     template< Expression Ex, arithmetic A >
     auto constexpr operator / ( A const& lhs_val, Ex const& ex ) noexcept
     {
-        return ex * inverse( lhs_val );
+        return inverse( ex ) * lhs_val;
     }
 
 
-- 
2.43.0


From 14025b63d32161590d86269755ff456c67ae3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 19/87] fix: subtracting an unsigned integer from an expression
 wrapped around

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 481ff96..25db32c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -727,7 +727,7 @@ namespace ceras
     template< Expression Ex, arithmetic A >
     auto constexpr operator - ( Ex const& ex, A const& rhs_val ) noexcept\
     {
-        return ex + (-rhs_val); // TODO: corner cases of unsigned integers
+        return ex + (-static_cast<double>(rhs_val)); // negate as a floating point, as negating an unsigned integer wraps around
     }
 
     template< Expression Ex, arithmetic A >
-- 
2.43.0


From 861d3dfa57ddd1093b7b5ecd241dcefa65bc4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 20/87] fix: gradient of log1p is 1/(1+x)

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 25db32c..35493cd 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4407,7 +4407,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() );
-                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / x; } );
+                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / (1.0+x); } );
                                         return ans;
                                     },
                                     "log1p"
-- 
2.43.0


From 1f8efabc2161cc74ffc076eda59bce0596072f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 21/87] fix: back-propagation of clip overwrote the incoming
 gradient

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 35493cd..45da71a 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1090,7 +1090,7 @@ namespace ceras
                                         {
                                             better_assert( !has_nan( grad ), "input gradient for operator clip contains NaN!" );
                                             const typename Tsor::value_type zero{0};
-                                            Tsor ans = grad;
+                                            Tsor ans = grad.deep_copy();
                                             for ( auto idx : range( input.size() ) )
                                                 ans[idx] = (input[idx] < lower) ? zero :
                                                            (input[idx] > upper) ? zero :
-- 
2.43.0


From 63bbf3a87bf07adc017f23988b81a0921e511c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 22/87] fix: minimum propagated the gradient to the larger
 operand

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 45da71a..2560bc5 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2541,7 +2541,7 @@ namespace ceras
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
 
-                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m < 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
+                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m > 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
 
                 return std::make_tuple( l_ans, r_ans );
             },
-- 
2.43.0


From e5b1515f4ba06f5cb9f652d9650d37515cb07c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 23/87] fix: gradients of atan2 had the opposite sign

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2560bc5..43a35ac 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2574,7 +2574,7 @@ namespace ceras
                 l_ans.resize( lhs_input.shape() );
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
-                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = -g*y/c; r = g*x/c; } );
+                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = g*y/c; r = -g*x/c; } );
                 return std::make_tuple( l_ans, r_ans );
             },
             "atan2"
-- 
2.43.0


From 0b156b7d3b96b5e2124f6e4ac79f4732ad907573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 24/87] fix: elementwise product of operands of the same size
 lost the higher rank

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index c36103a..b203467 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -716,7 +716,7 @@ namespace ceras
     {
         unsigned long const l_size = lhs.size();
         unsigned long const r_size = rhs.size();
-        if ( l_size < r_size ) return elementwise_product(rhs, lhs);
+        if ( l_size < r_size || ( l_size == r_size && lhs.ndim() < rhs.ndim() ) ) return elementwise_product(rhs, lhs);
 
         unsigned long const repeats = l_size / r_size;
         better_assert( (r_size * repeats) == l_size, "Dimension is not match!" );
-- 
2.43.0


From ef48ca1e467ea788a7f993496455114c7572f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 25/87] fix: predicted shape of elementwise product with
 operands of the same rank

---
 include/operation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 43a35ac..6a753f7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -864,7 +864,14 @@ namespace ceras
                                         };
                                         return std::make_tuple( grad_fun( lhs_input, rhs_input ), grad_fun( rhs_input, lhs_input ) );
                                      },
-                                     "elementwise_product"
+                                     "elementwise_product",
+                                     []( std::vector<unsigned long> const& l, std::vector<unsigned long> const& r ) noexcept
+                                     {
+                                        std::vector<unsigned long> ans = l.size() < r.size() ? r : l;
+                                        if ( l.size() == r.size() )
+                                            std::transform( l.begin(), l.end(), r.begin(), ans.begin(), []( unsigned long x, unsigned long y ) { return x == 1UL ? y : x; } );
+                                        return ans;
+                                     }
                 )( lhs_ex, rhs_ex );
     };
 
-- 
2.43.0


From f8e7c604dfd570a8906670d2b993945c18a758bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 26/87] fix: applying one layer function to two inputs shared
 their result buffers

---
 include/operation.hpp | 132 +++++++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 66 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6a753f7..c6bf0d3 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -461,11 +461,11 @@ namespace ceras
     ///
     auto inline broadcast( std::vector<unsigned long> const& new_shape ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [new_shape, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [new_shape]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [new_shape, forward_cache]<Tensor Tsor>( Tsor const& input )noexcept
@@ -1333,11 +1333,11 @@ namespace ceras
     ///
     auto inline argmax( unsigned long axis=0 ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1626,11 +1626,11 @@ namespace ceras
             }
         };
 
-        std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
-
-        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward, output_cache, back_grad_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
@@ -1890,12 +1890,12 @@ namespace ceras
         better_assert( factor < T{1}, "Expecting drop out rate less than 1, but got factor = ", factor );
         better_assert( factor > T{0}, "Expecting drop out rate greater than 0, but got factor = ", factor );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [factor, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [factor]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [factor, mask, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2053,12 +2053,12 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting max_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 max_pooling_2d_context{}.make_forward()( stride, mask, forward_cache ),
@@ -2078,11 +2078,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting average_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [stride, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept // [BS, R, C, CH] --> [BS, R/s, C/s, CH]
@@ -2218,11 +2218,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting up_sampling_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 up_sampling_2d_context{}.make_forward()( stride, forward_cache ),
@@ -2249,15 +2249,15 @@ namespace ceras
     template< typename T=double > requires std::floating_point<T>
     inline auto normalization_batch( T const momentum=0.98 ) noexcept
     {
-        std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2850,11 +2850,11 @@ namespace ceras
         better_assert( right >= 1, "Expecting zero_padding_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 zero_padding_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -2975,11 +2975,11 @@ namespace ceras
         better_assert( right >= 1, "Expecting cropping_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 cropping_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -3092,12 +3092,12 @@ namespace ceras
 
     inline auto sliding_2d( unsigned long pixels ) noexcept
     {
-        std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return cropping_2d( {pixels,} )( detailed_sliding_2d(pixels, shift_cache, forward_cache, backward_cache)( zero_padding_2d( {pixels,} )( ex ) )  );
         };
     }
@@ -3191,11 +3191,11 @@ namespace ceras
     {
         better_assert( repeats > 0, "repeat: repeats can not be zero." );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [repeats, axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [repeats, axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 repeat_context{}.make_forward()( repeats, axis, forward_cache ),
@@ -3323,12 +3323,12 @@ namespace ceras
     ///
     inline auto reduce_min( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_min_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3458,12 +3458,12 @@ namespace ceras
     ///
     inline auto reduce_max( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_max_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3575,11 +3575,11 @@ namespace ceras
     ///
     inline auto reduce_sum( unsigned long axis ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_sum_context{}.make_forward()( axis, forward_cache ),
-- 
2.43.0


From 2b73899ccbf7f324f815486c33fe18f5be2fa3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 27/87] fix: img2col ordered the rows of a patch by channel
 first, unlike the kernels it is multiplied with

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index c6bf0d3..abc6aed 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1569,9 +1569,9 @@ namespace ceras
                     std::int64_t const im_offset = bs * R * C * CH;
                     for ( auto c : range( CH * kernel_row * kernel_col ) )
                     {
-                        std::int64_t const w_offset = c % kernel_col;
-                        std::int64_t const h_offset = ( c / kernel_col ) % kernel_row;
-                        std::int64_t const c_im = c / ( kernel_col * kernel_row );
+                        std::int64_t const w_offset = ( c / CH ) % kernel_col;
+                        std::int64_t const h_offset = c / ( CH * kernel_col );
+                        std::int64_t const c_im = c % CH;
 
                         for ( auto h : range( output_row ) )
                         {
-- 
2.43.0


From bc2e3a4c6262bd0e8e1aa7b1664ea05620022e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 28/87] fix: output width of conv2d was computed from the row
 padding

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index abc6aed..869868c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1695,7 +1695,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
@@ -1748,7 +1748,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
-- 
2.43.0


From 1ba83bff20e00346360a67d324fe35ec8359e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 29/87] fix: img2col reused the pixel index of an input with
 another shape

---
 include/operation.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 869868c..32b1db7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1534,11 +1534,11 @@ namespace ceras
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
-        std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
-
-        auto img2col_forward = [s_index_record]<Tensor Tsor>
+        auto img2col_forward = []<Tensor Tsor>
         (
             Tsor const& input_img, Tsor& output_col_mat,
+            std::vector<std::uint32_t>& index_record, // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding, 32 bit should be enough for memory address offeset
+            std::vector<unsigned long>& index_shape, // input shape the index has been generated for
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
             unsigned long stride_row, unsigned long stride_col,
@@ -1546,7 +1546,6 @@ namespace ceras
         ) noexcept
         {
             typedef typename Tsor::value_type value_type;
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
 
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
@@ -1559,8 +1558,9 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( index_record.size() != output_column_matrix_row * output_column_matrix_col ) // first-run?
+            if ( index_shape != input_shape ) // first run, or an input of another shape
             {
+                index_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
@@ -1611,13 +1611,12 @@ namespace ceras
             }
         };
 
-        auto img2col_backward = [s_index_record]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
+        auto img2col_backward = []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans, std::vector<std::uint32_t> const& index_record ) noexcept
         {
             typedef typename Tsor::value_type value_type;
             ans.resize( input.shape() );
             std::fill( ans.begin(), ans.end(), value_type{0} );
 
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
             for ( auto idx : range( grad.size() ) )
             {
                 auto const index = index_record[idx];
@@ -1628,6 +1627,8 @@ namespace ceras
 
         return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>();
+            std::shared_ptr<std::vector<unsigned long>> s_index_shape = std::make_shared<std::vector<unsigned long>>();
             std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
             std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
 
@@ -1636,13 +1637,13 @@ namespace ceras
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( tsor, output, *s_index_record, *s_index_shape, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     Tsor& back_grad = context_cast<Tsor>( back_grad_cache );
-                    img2col_backward( input, output, grad, back_grad );
+                    img2col_backward( input, output, grad, back_grad, *s_index_record );
                     return Tsor{back_grad};
                 },
                 "img2col",
-- 
2.43.0


From 4595ed3f6c21ec0946a77aac3d6bf51cba902a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 30/87] fix: back-propagation of conv2d_transpose did not
 compile

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 32b1db7..6859800 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1833,7 +1833,7 @@ namespace ceras
 
                     std::vector<unsigned long> const& output_shape = grad.shape();
                     auto [_bs, o_row, o_col, _ch] = std::make_tuple( output_shape[0], output_shape[1], output_shape[2], output_shape[3] );
-                    view_4d<value_type> g_4d{ grad.data(), bs, o_row, o_col, ch };
+                    view_4d<value_type const> g_4d{ grad.data(), bs, o_row, o_col, ch };
 
                     unsigned long row_offset = (padding == std::string{"valid"}) ? (row_kernel-1) : 0;
                     unsigned long col_offset = (padding == std::string{"valid"}) ? (col_kernel-1) : 0;
-- 
2.43.0


From f49b50639cb33a3b305257fba5caed8e52611eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 31/87] fix: max_pooling_2d kept the maxima and the gradients
 of earlier runs

---
 include/operation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6859800..482b22c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1975,6 +1975,7 @@ namespace ceras
 
                         Tsor& mask__ = context_cast<Tsor>( mask );
                         mask__.resize( input.shape() );
+                        std::fill( mask__.begin(), mask__.end(), value_type{0} ); // forget the maxima of the last run
 
 
                         std::vector<unsigned long> shape = input.shape();
@@ -2027,6 +2028,7 @@ namespace ceras
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
                         ans.resize( input.shape() );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
 
                         view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
-- 
2.43.0


From f1a0755213b82cd61ded6bf1a75cc2659a02377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 32/87] fix: gradient of average_pooling_2d read beyond the
 incoming gradient for images that are not a multiple of the stride

---
 include/operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 482b22c..b302824 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2122,6 +2122,7 @@ namespace ceras
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.resize( input.shape() );
+                    std::fill( ans.begin(), ans.end(), value_type{0} ); // the pixels beyond the last whole pooling window receive no gradient
 
                     view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2130,8 +2131,8 @@ namespace ceras
 
                     value_type const factor = value_type{1} / static_cast<value_type>(stride*stride);
                     for ( auto bs : range( batch_size ) )
-                        for ( auto r : range( row ) )
-                            for ( auto c : range( col ) )
+                        for ( auto r : range( (row/stride)*stride ) )
+                            for ( auto c : range( (col/stride)*stride ) )
                                 for ( auto ch : range( channel ) )
                                     ta[bs][r][c][ch] = factor * tg[bs][r/stride][c/stride][ch];
                     return ans;
-- 
2.43.0


From a86032e25d3922679d82ef2447a068610bcb5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 33/87] fix: zero_padding_2d left old pixels in the padding
 when the input shape changes

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index b302824..3e2a065 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2773,6 +2773,7 @@ namespace ceras
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
                         ans.resize( {batch_size, top+row+bottom, left+col+right, channel} );
+                        std::fill( ans.begin(), ans.end(), value_type{0} ); // the padded pixels are elsewhere for an input of another shape
                         view_4d<value_type> ta{ ans.data(), batch_size, top+row+bottom, left+col+right, channel };
 
                         for ( auto bs : range( batch_size ) )
-- 
2.43.0


From 2813de994fb36ccdb327e2abd24539b909573c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 34/87] fix: cropping_2d accepted a cropping larger than the
 image

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 3e2a065..29db3fb 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2893,8 +2893,8 @@ namespace ceras
                         Tsor input_ = input;
                         view_4d<value_type> ts{ input_.data(), batch_size, row, col, channel };
 
-                        better_assert( row-top-bottom > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
-                        better_assert( col-left-right > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
+                        better_assert( row > top+bottom, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
+                        better_assert( col > left+right, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
 
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
-- 
2.43.0


From 6481de4175a5b29704c481bf29cba49a6baf40cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 35/87] fix: back-propagation of sliding_2d lost the shifts of
 the forward pass

---
 include/operation.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 29db3fb..0a3308a 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3020,7 +3020,7 @@ namespace ceras
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
                         view_4d vi{tsor.data(), batch_size, row, col, channel};
 
-                        tensor<long> shifts = context_cast<tensor<long>>( shift_cache );
+                        tensor<long>& shifts = context_cast<tensor<long>>( shift_cache );
                         shifts.resize( {channel, 2} );
                         {   //generating random shifts
                             std::uniform_int_distribution<long> distribution( -pixels, pixels );
@@ -3056,11 +3056,14 @@ namespace ceras
                     },
                     [=]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                     {
+                        if (learning_phase != 1)
+                            return grad;
+
                         typedef typename Tsor::value_type value_type;
                         std::vector<unsigned long> const& shape = grad.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple( shape[0], shape[1], shape[2], shape[3] );
                         view_4d vi{grad.data(), batch_size, row, col, channel};
-                        tensor<long> shifts = context_cast<tensor<long>>( shift_cache );
+                        tensor<long>& shifts = context_cast<tensor<long>>( shift_cache );
                         view_2d _shifts{shifts.data(), channel, 2};
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
-- 
2.43.0


From 32bccae0db8301f3b4ea63c56ed0eca2fb93ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 36/87] fix: dropout kept the mask of its first run, also for
 inputs of another size

---
 include/operation.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0a3308a..6141b94 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1906,20 +1906,14 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return input;
 
-                    std::any& mask_ = *mask;
-                    // first run, initialize mask
-                    if ( !mask_.has_value() )
-                    {
+                    Tsor& mask__ = context_cast<Tsor>( mask );
+                    mask__.resize( input.shape() );
+                    {   // select the elements to keep, independently on every run
                         Tsor const random_tensor = random<value_type>( input.shape() );
-                        Tsor mask__{ input.shape() };
                         for ( auto idx : range( input.size() ) )
-                            if ( random_tensor[ idx ] > factor )
-                                mask__[ idx ] = 1;
-                        mask_ = mask__; // initialize
+                            mask__[ idx ] = ( random_tensor[ idx ] > factor ) ? value_type{1} : value_type{0};
                     }
 
-                    Tsor& mask__ = std::any_cast<Tsor&>( mask_ );
-
                     Tsor& ans = context_cast<Tsor>( forward_cache );
                     ans.deep_copy( input );
 
-- 
2.43.0


From 2d2d7fa6b24bba78324bb4f514d929a6f91e9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 37/87] fix: gradient of dropout was not scaled as its output

---
 include/operation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6141b94..6c6d039 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1921,8 +1921,10 @@ namespace ceras
                         ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
-                [mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                [factor, mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                 {
+                    typedef typename Tsor::value_type value_type;
+
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
@@ -1932,7 +1934,7 @@ namespace ceras
                     ans.deep_copy( grad );
 
                     for ( auto idx : range( grad.size() ) )
-                        ans[idx] *= mask__[idx];
+                        ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
                 "dropout",
-- 
2.43.0


From 89d635b5128f443d3ddf7eb5c8032522d4011622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 38/87] fix: batch normalization never learned its running
 statistics when a prediction ran first

---
 include/operation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6c6d039..122b1a7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2277,8 +2277,7 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                     {
                         // fix for the special case when prediction is executed before the training, typically in a GAN
-                        Tsor& global_average_test = context_cast<Tsor>( global_average_cache );
-                        if ( global_average_test.empty() )
+                        if ( !global_average_cache->has_value() )
                             return input;
 
                         // normal case. i.e., the global_average_cache and global_variance_cache are not empty
-- 
2.43.0


From 66665f2936c43550a52e20c4c117e1312e1c3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 39/87] fix: gradient of batch normalization ignored that the
 statistics depend on the batch, and kept its first batch size

---
 include/operation.hpp | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 122b1a7..2f90533 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2352,18 +2352,46 @@ namespace ceras
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
-                    Tsor& variance = context_extract<Tsor>( variance_cache );
-
                     std::vector<unsigned long> const& shape = input.shape();
                     unsigned long const channels = *(shape.rbegin());
                     unsigned long const rest_dims = input.size() / channels;
 
-                    Tsor& ans = context_cast<Tsor>( backward_cache, zeros_like( input ) );
+                    Tsor& ans = context_cast<Tsor>( backward_cache );
+                    ans.resize( input.shape() ); // the batch size may change between the runs
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
-                    for ( auto r : range( rest_dims ) )
-                        for ( auto c : range( channels ) )
-                            ans_[r][c] = grad_[r][c] / std::sqrt( variance[c] + eps );
+
+                    if ( learning_phase == 0 ) // normalized with the running statistics, which do not depend on the input
+                    {
+                        if ( !global_variance_cache->has_value() )
+                            return grad;
+
+                        Tsor& global_variance = context_extract<Tsor>( global_variance_cache );
+                        for ( auto r : range( rest_dims ) )
+                            for ( auto c : range( channels ) )
+                                ans_[r][c] = grad_[r][c] / std::sqrt( global_variance[c] + eps );
+                        return ans;
+                    }
+
+                    // the average and the variance of the batch depend on every input
+                    Tsor& average = context_extract<Tsor>( average_cache );
+                    Tsor& variance = context_extract<Tsor>( variance_cache );
+                    view_2d<value_type> input_{ input.data(), rest_dims, channels };
+                    for ( auto c : range( channels ) )
+                    {
+                        value_type const inverse_deviation = value_type{1} / std::sqrt( variance[c] + eps );
+                        value_type grad_average{0};
+                        value_type projection{0};
+                        for ( auto r : range( rest_dims ) )
+                        {
+                            grad_average += grad_[r][c];
+                            projection += grad_[r][c] * ( input_[r][c] - average[c] ) * inverse_deviation;
+                        }
+                        grad_average /= static_cast<value_type>( rest_dims );
+                        projection /= static_cast<value_type>( rest_dims );
+                        for ( auto r : range( rest_dims ) )
+                            ans_[r][c] = ( grad_[r][c] - grad_average - ( input_[r][c] - average[c] ) * inverse_deviation * projection ) * inverse_deviation;
+                    }
                     return ans;
                 },
                 "normalization_batch",
-- 
2.43.0


From d007fc8291b43687fd8e6419ad4f6aae4064fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 40/87] fix: back-propagation of relu, softmax, elu and other
 activations overwrote the incoming gradient

---
 include/activation.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c10ae63..0b4d201 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -108,7 +108,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
-                                        Tsor ans = grad;
+                                        Tsor ans = deep_copy( grad );
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
                                         return ans;
                                     },
@@ -303,7 +303,7 @@ namespace ceras
                     better_assert( output.size(), "relu::backward: empty output." );
                     better_assert( grad.size(), "relu::backward: empty grad." );
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = deep_copy( grad );
                     //for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( x <= value_type{0} ) v = value_type{0}; } );
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){  v *= ( x > value_type{0} ); } );
                     return ans;
@@ -356,7 +356,7 @@ namespace ceras
                 return []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = deep_copy( grad );
                     //const typename Tsor::value_type zero{0};
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( (x <= value_type{0}) || (x >= value_type{6}) ) v = value_type{0}; } );
                     return ans;
@@ -414,7 +414,7 @@ namespace ceras
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = deep_copy( grad );
                                             for_each( ans.begin(), ans.end(), input.begin(), [factor]( value_type& v_back, value_type const v_in ){ v_back = (v_in > value_type{0}) ? v_back : factor*v_back; } );
                                             return ans;
                                         },
@@ -468,7 +468,7 @@ namespace ceras
                                         [alpha]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = deep_copy( grad );
                                             for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
                                             return ans;
                                         },
@@ -506,7 +506,7 @@ namespace ceras
                                     },
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
-                                        Tsor ans = grad;
+                                        Tsor ans = deep_copy( grad );
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ){ a *= o; } );
                                         return ans;
                                     },
@@ -542,7 +542,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = deep_copy( grad );
                                         for_each( ans.begin(), ans.end(), input.begin(), []( auto& a, auto x ) { a = ((x > value_type{1}) || (x < value_type{-1})) ? value_type{0} : (a / value_type{2}); } );
                                         return ans;
                                     },
@@ -600,7 +600,7 @@ namespace ceras
                                     [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = deep_copy( grad );
                                         for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
                                         return ans;
                                     },
-- 
2.43.0


From d78f0140a0a3a98ce3a316b4c09c8858837b5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 41/87] fix: gradient of softmax was only the diagonal of its
 Jacobian

---
 include/activation.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 0b4d201..f7cf04f 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -108,8 +108,17 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
+                                        typedef typename Tsor::value_type value_type;
                                         Tsor ans = deep_copy( grad );
-                                        for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
+                                        std::size_t const last_dim = *(output.shape().rbegin());
+                                        std::size_t const rest_dim = output.size() / last_dim;
+                                        for ( auto idx : range( rest_dim ) ) // a_i = o_i * ( g_i - sum_j g_j o_j )
+                                        {
+                                            auto const [o_begin, g_begin, a_begin] = std::make_tuple( output.begin()+idx*last_dim, grad.begin()+idx*last_dim, ans.begin()+idx*last_dim );
+                                            value_type const projection = std::inner_product( o_begin, o_begin+last_dim, g_begin, value_type{0} );
+                                            for ( auto jdx : range( last_dim ) )
+                                                *(a_begin+jdx) = *(o_begin+jdx) * ( *(g_begin+jdx) - projection );
+                                        }
                                         return ans;
                                     },
                                     "softmax"
-- 
2.43.0


From 916f3baeb141c26834caac3a0fc86f13035c47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 42/87] fix: gradient of softplus is the sigmoid

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index f7cf04f..803b5ec 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -200,7 +200,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() ); // 1 / ( 1 + exp(-x) )
-                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} - std::exp(-i) ); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} + std::exp(-i) ); } );
                                         return ans;
                                     },
                                     "softplus"
-- 
2.43.0


From 0c6aaf77d0f2b0938a83a648d375e57f9629eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 43/87] fix: softplus overflowed for large inputs

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 803b5ec..0b9cc3a 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -193,7 +193,7 @@ namespace ceras
                                         Tsor& ans = context_cast<Tsor>( forward_cache );
                                         ans.resize( input.shape() );
                                         std::copy( input.begin(), input.end(), ans.begin() );
-                                        ans.map( [](auto& x){ x = std::log(1.0+std::exp(x)); } ); // ln( 1+e^x )
+                                        ans.map( [](auto& x){ x = std::max( x, typename Tsor::value_type{0} ) + std::log1p( std::exp( -std::abs(x) ) ); } ); // ln( 1+e^x )
                                         return ans;
                                     },
                                     [backward_cache]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
-- 
2.43.0


From ab45abd0cba341260cb3d99c74bf4f3e4df1a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 44/87] fix: gradient of elu was computed from the incoming
 gradient instead of the input

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 0b9cc3a..0dd7070 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -478,7 +478,7 @@ namespace ceras
                                         {
                                             typedef typename Tsor::value_type value_type;
                                             Tsor ans = deep_copy( grad );
-                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : v_back*alpha*std::exp(v_in); } );
                                             return ans;
                                         },
                                         "elu",
-- 
2.43.0


From eebc10de6cfccf403151af3e5eb6ce74cfd7aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 45/87] fix: gradient of gelu was computed from the incoming
 gradient, with a wrong derivative

---
 include/activation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 0dd7070..499b709 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -591,7 +591,7 @@ namespace ceras
         {
             auto const sq_2_pi_x = 0.79788456080286535588 * x;
             auto const _xx = x * x;
-            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) * ( 1.0 + 0.134145 * _xx) );
+            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + 0.5 * sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) ) * ( 1.0 + 0.134145 * _xx );
             return static_cast<T>( ans );
         };
 
@@ -606,11 +606,11 @@ namespace ceras
                                         ans.map([_gelu](auto& x) { x = _gelu(x); });
                                         return ans;
                                     },
-                                    [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                                    [_dgelu]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
                                         Tsor ans = deep_copy( grad );
-                                        for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), [&_dgelu]( auto& a, auto x ) {  a *= _dgelu(x); } );
                                         return ans;
                                     },
                                     "gelu"
-- 
2.43.0


From da289f09109a284945e758aaf19a41538f24b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 46/87] fix: mish and lisht multiplied matrices instead of
 elements

---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 499b709..c207ec1 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -682,7 +682,7 @@ namespace ceras
     template< Expression Ex >
     auto mish( Ex const& ex ) noexcept
     {
-        return ex*tanh(softplus(ex));
+        return hadamard_product( ex, tanh(softplus(ex)) );
     }
 
 
@@ -697,7 +697,7 @@ namespace ceras
     template< Expression Ex >
     auto lisht( Ex const& ex ) noexcept
     {
-        return ex*tanh(ex);
+        return hadamard_product( ex, tanh(ex) );
     }
 
 }//namespace ceras
-- 
2.43.0


From 3d680e9c5a7139e66080b2aa2da8b10a5316ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 47/87] fix: leaky_relu and elu did not compile

---
 include/activation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c207ec1..3ecfefe 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -428,7 +428,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "leaky_relu",
-                                        make_argumented_unary_operator_serializer( factor )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( factor )
                     )( ex );
         };
     }
@@ -482,7 +483,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "elu",
-                                        make_argumented_unary_operator_serializer( alpha )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( alpha )
                     )( ex );
         };
     }
-- 
2.43.0


From b3e8062f70e886d5d10198301a3b37f8c8f63776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 48/87] fix: gradient of concatenate mixed iterators of two
 temporary shape vectors

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2f90533..0b0afe4 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2443,7 +2443,8 @@ namespace ceras
 
                     // 2D view of grad
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
-                    unsigned long const g_col = std::accumulate( grad.shape().begin()+ax, grad.shape().end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
+                    std::vector<unsigned long> const& grad_shape = grad.shape();
+                    unsigned long const g_col = std::accumulate( grad_shape.begin()+ax, grad_shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const g_row = grad.size() / g_col;
                     view_2d<value_type> v_g{ grad.data(), g_row, g_col };
 
-- 
2.43.0


From 2a05c2114a3c7647da2d437196cfadc8828224eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 49/87] fix: sgd applied the Nesterov update when it is off and
 the classical one when it is on

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 31da89e..4145634 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -58,7 +58,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
-                    if (!nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
+                    if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
                     else data += moments;
 
                     gradient.reset(); // clear variable gradient
-- 
2.43.0


From e03b2325fc6843a41928742459569ba4d67c8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 50/87] fix: adadelta accumulated gradients and updates in the
 same tensor

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 4145634..d6cfc69 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -208,7 +208,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     }
                     auto& moments = contexts[0];
-                    auto& delta = contexts[0];
+                    auto& delta = contexts[1];
 
                     /*
                     if (iterations_==0)
-- 
2.43.0


From d6f981fdfa7bcdf17b76dfe1bd739021e895fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 51/87] fix: mean_squared_logarithmic_error returned the sum of
 the squared errors

---
 include/loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/loss.hpp b/include/loss.hpp
index 804f15e..f20f36b 100644
--- a/include/loss.hpp
+++ b/include/loss.hpp
@@ -11,7 +11,7 @@ namespace ceras
     template < Expression Lhs_Expression, Expression Rhs_Expression >
     auto constexpr mean_squared_logarithmic_error( Lhs_Expression const& lhs_ex, Rhs_Expression const& rhs_ex ) noexcept
     {
-        return sum_reduce( square( minus(log( value{1.0} + clip(eps)(lhs_ex) ), log( value{1.0} + clip(eps)(rhs_ex) ))) );
+        return mean_reduce( square( minus(log( value{1.0} + clip(eps)(lhs_ex) ), log( value{1.0} + clip(eps)(rhs_ex) ))) );
     }
 
     template < Expression Lhs_Expression, Expression Rhs_Expression >
-- 
2.43.0


From 17ca4faf3e8bed047e3fba2e55280ef0185b151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 52/87] fix: predicted shape of reduce_min, reduce_max and
 reduce_sum wrote out of bounds for the default axis

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0b0afe4..49d25e1 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3370,7 +3370,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3505,7 +3505,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3621,7 +3621,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
-- 
2.43.0


From 33a00872821e966a338977906fe3bd13ecfd400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 53/87] fix: pow did not compile

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 49d25e1..2be7bc6 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4957,6 +4957,7 @@ namespace ceras
                                         return ans;
                                     },
                                     "pow",
+                                    identity_output_shape_calculator{},
                                     [exponent]<Expression Self_Expression, Expression Input_Expression>( Self_Expression const& self_expression, Input_Expression const& input_expression ) noexcept
                                     { // serializer
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
-- 
2.43.0


From fba617995c20d59363c3e9a75f28a5cb1b9f0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 54/87] fix: subtracting a complex expression from an
 expression added them

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index b0c959d..f8977a7 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -248,7 +248,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator - ( E const& e, C const& c ) noexcept
     {
-        return c + e;
+        return complex{ e-real(c), -imag(c) };
     }
 
     ///
-- 
2.43.0


From a220fb7808741682dfc8168b27da8ffca781488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 55/87] fix: multiplying an expression with a complex
 expression swapped the operands of the matrix product

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index f8977a7..c9b2d42 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -266,7 +266,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator * ( E const& e, C const& c ) noexcept
     {
-        return c * e;
+        return complex{ e*real(c), e*imag(c) };
     }
 
 
-- 
2.43.0


From 5af7b67615dbf6ea31c4a546dbfbe7f6af7673a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 56/87] fix: make_trainable() did not compile for operators,
 their operands are reached by op(), lhs_op() and rhs_op()

---
 include/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 7937e5e..6a686d9 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -23,12 +23,12 @@ namespace ceras
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            make_trainable( ex.lhs_op_, t );
-            make_trainable( ex.rhs_op_, t );
+            make_trainable( ex.lhs_op(), t );
+            make_trainable( ex.rhs_op(), t );
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            make_trainable( ex.op_, t );
+            make_trainable( ex.op(), t );
         }
     }
 
-- 
2.43.0


From ea3b3f06d90543dfb70715a4ad1cd99330ea4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 57/87] fix: applying a model to an expression did not compile,
 operators expose their parts by member functions

---
 include/model.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 6a686d9..42afcc8 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -54,13 +54,13 @@ namespace ceras
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            return make_unary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )( replace_placeholder_with_expression( ex.op_, old_place_holder, new_expression ) );
+            return make_unary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator() )( replace_placeholder_with_expression( ex.op(), old_place_holder, new_expression ) );
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            return make_binary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )
-                                       ( replace_placeholder_with_expression( ex.lhs_op_, old_place_holder, new_expression ),
-                                         replace_placeholder_with_expression( ex.rhs_op_, old_place_holder, new_expression ) );
+            return make_binary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator() )
+                                       ( replace_placeholder_with_expression( ex.lhs_op(), old_place_holder, new_expression ),
+                                         replace_placeholder_with_expression( ex.rhs_op(), old_place_holder, new_expression ) );
         }
         else
         {
-- 
2.43.0


From bdabf78a09eb0bb93602b40c194cac168919561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 58/87] fix: fit() trained on one batch of the validation split

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index 42afcc8..4cd991e 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -206,7 +206,7 @@ namespace ceras
                     // forward pass
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
-                    if ( l <= training_loops )
+                    if ( l < training_loops )
                     {
                         training_error += error;
                         s.run( compiled_optimizer_ );
-- 
2.43.0


From 623d49e4a1bde1a59b40c9e8fb285e745802d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 59/87] fix: fit() ran the validation split in the learning
 phase, with drop-out on and normalization statistics updated

---
 include/model.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/model.hpp b/include/model.hpp
index 4cd991e..0eb7b3d 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -204,6 +204,7 @@ namespace ceras
                     std::copy_n( inputs.data() + l * input_size_per_batch, input_size_per_batch, input_samples.data() );
                     std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
                     // forward pass
+                    learning_phase = ( l < training_loops ) ? 1 : 0; // validation samples must not update the states of the normalization layers
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
                     if ( l < training_loops )
@@ -216,6 +217,7 @@ namespace ceras
                         validation_error += error;
                     }
                 }
+                learning_phase = 1; // restore learning phase
                 training_errors.push_back( training_error / training_loops );
                 validation_errors.push_back( validation_error / validation_loops );
                 if ( verbose )
-- 
2.43.0


From 2c6e804a8ef4f1b828efbbbbbda20dbae43a9f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 60/87] fix: the optimizer of a copied or moved compiled_model
 referred to the loss of the original one

---
 include/model.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 0eb7b3d..637b807 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -77,12 +77,12 @@ namespace ceras
         Model model_;
         io_layer_type input_place_holder_;
         io_layer_type ground_truth_place_holder_;
-        Loss loss_; // MeanSquaredError()( model_.output() )( find a input );
+        std::shared_ptr<Loss> loss_; // shared by all copies, as the optimizer refers to it; MeanSquaredError()( model_.output() )( find a input );
         Optimizer optimizer_; // Adam( ... )
         optimizer_type compiled_optimizer_;
 
         compiled_model( Model const& m, io_layer_type const& input_place_holder, io_layer_type const& ground_truth_place_holder, Loss const& loss, Optimizer const& optimizer ):
-            model_{m}, input_place_holder_{input_place_holder}, ground_truth_place_holder_{ground_truth_place_holder}, loss_{loss}, optimizer_{optimizer}, compiled_optimizer_{ optimizer_(loss_) }  { }
+            model_{m}, input_place_holder_{input_place_holder}, ground_truth_place_holder_{ground_truth_place_holder}, loss_{std::make_shared<Loss>( loss )}, optimizer_{optimizer}, compiled_optimizer_{ optimizer_(*loss_) }  { }
 
         ///
         /// Calculate the loss for the model in test model.
@@ -127,7 +127,7 @@ namespace ceras
                 std::copy_n( inputs.data() + l * input_size_per_batch, input_size_per_batch, input_samples.data() );
                 std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
                 // forward pass
-                auto error = s.run( loss_ ).as_scalar();
+                auto error = s.run( *loss_ ).as_scalar();
                 // in case of training split, do backpropagation
                 validation_error += error;
             }
@@ -205,7 +205,7 @@ namespace ceras
                     std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
                     // forward pass
                     learning_phase = ( l < training_loops ) ? 1 : 0; // validation samples must not update the states of the normalization layers
-                    auto error = s.run( loss_ ).as_scalar();
+                    auto error = s.run( *loss_ ).as_scalar();
                     // in case of training split, do backpropagation
                     if ( l < training_loops )
                     {
@@ -253,7 +253,7 @@ namespace ceras
             s.bind( input_place_holder_, input );
             s.bind( ground_truth_place_holder_, output );
             //debug_log( "Training on batch forward pass." );
-            auto error = s.run( loss_ );
+            auto error = s.run( *loss_ );
             //debug_log( "Training on batch backward pass." );
             s.run( compiled_optimizer_ );
             return error.as_scalar();
-- 
2.43.0


From b1665ea5bbc938f50b5b1d5e071b5bb4c62295cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 61/87] fix: an optimizer took over, or read beyond, the state
 another optimizer left in a variable

---
 include/optimizer.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index d6cfc69..9bf170d 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -54,8 +54,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( iterations_ == 0 || contexts.size() != 1 ) // create context, not taking over the one of another optimizer
+                        contexts = { zeros_like( data ) };
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
                     if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
@@ -99,8 +99,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( iterations_ == 0 || contexts.size() != 1 ) // create context, not taking over the one of another optimizer
+                        contexts = { zeros_like( data ) };
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                     auto& moments = contexts[0];
 
@@ -150,8 +150,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( iterations_ == 0 || contexts.size() != 1 ) // create context, not taking over the one of another optimizer
+                        contexts = { zeros_like( data ) };
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                     auto& moments = contexts[0];
 
@@ -200,12 +200,11 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
+                    if ( iterations_ == 0 || contexts.size() != 2 ) // create context, not taking over the one of another optimizer
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
-                        contexts.push_back( zeros_like( data ) );
+                        contexts = { zeros_like( data ), zeros_like( data ) };
                     }
                     auto& moments = contexts[0];
                     auto& delta = contexts[1];
@@ -275,12 +274,11 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
+                    if ( iterations_ == 0 || contexts.size() != 2 ) // create context, not taking over the one of another optimizer
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
-                        contexts.push_back( zeros_like( data ) );
+                        contexts = { zeros_like( data ), zeros_like( data ) };
                     }
                     auto& m = contexts[0];
                     auto& v = contexts[1];
-- 
2.43.0


From 3516c86b562df99eb56ea741245148ab0b56354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 62/87] fix: predict() returned a buffer of the model that the
 next prediction overwrote

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index 637b807..c6e0a82 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -353,7 +353,7 @@ namespace ceras
             auto& s = get_default_session<Tsor>();//.get();
             s.bind( place_holder_, input_tensor );
 
-            auto ans = s.run( expression_ );
+            auto ans = s.run( expression_ ).deep_copy(); // the result of the expression can be a buffer that its next evaluation overwrites
 
             learning_phase = 1; // restore learning phase
 
-- 
2.43.0


From f35d70c7161ae9e6f9cad284c98db27de01a7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 63/87] fix: fit() and evaluate() hung or drew a bar of
 arbitrary width when the standard input is not a (wide) terminal

---
 include/utils/tqdm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 00ab065..e0b2759 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -44,7 +44,8 @@ namespace dm_details
         else
         {
             winsize w;
-            ioctl(0, 0x5413, &w); // 0x5413 is translated from macro 'TIOCGWINSZ'
+            if ( ioctl(0, 0x5413, &w) != 0 || w.ws_col <= 40 ) // 0x5413 is translated from macro 'TIOCGWINSZ'
+                return 80; // not a terminal, or too narrow for a progress bar
             return w.ws_col;
         }
     }
-- 
2.43.0


From 2d365b147fa0956b740b5bf29e86b48399f14e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 64/87] fix: lzw::decompress read out of bounds for damaged
 input whose first code, or code before a dictionary reset, has no predecessor

---
 include/utils/lzw.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/lzw.hpp b/include/utils/lzw.hpp
index 4bb0607..045e7f7 100644
--- a/include/utils/lzw.hpp
+++ b/include/utils/lzw.hpp
@@ -536,7 +536,8 @@ namespace lzw
                 break;
             }
 
-            if (k > dictionary.size())
+            // a first code naming the next entry, or a previous code lost with the old dictionary, has no string to extend
+            if (k > dictionary.size() || (i == globals::dms ? k == dictionary.size() : i >= dictionary.size()))
             {
                 better_assert(false, "lzw::invalid compression code with k = ", k, " but dictionary size ", dictionary.size());
                 return -1;
-- 
2.43.0


From 3d9bde699f5b2fca8a4e899e43bf0ecf40a9014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 65/87] fix: saving a session kept six significant digits of
 each weight only

---
 include/session.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/session.hpp b/include/session.hpp
index 3f8c609..1d4c258 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -123,6 +123,7 @@ namespace ceras
         {
             std::ofstream ofs{ file_path };
             better_assert( ofs.good(), "failed to open file ", file_path );
+            ofs.precision( std::numeric_limits<typename tensor_type::value_type>::max_digits10 );
 
             // save id
             for ( auto const& [id, v] : variables_ )
-- 
2.43.0


From 6ff2f23c66e8a6219b206d1c2875682c5e4b2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 66/87] hook: under CERAS_MONITOR, blocks resting in the memory
 cache are poisoned for AddressSanitizer

---
 include/utils/cached_allocator.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index 3ba86ec..ffbb519 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -7,6 +7,19 @@
 #include "./singleton.hpp"
 #include "./better_assert.hpp"
 
+// hooks for runtime monitoring: blocks resting in the cache must not be touched
+#if defined(CERAS_MONITOR) && defined(__has_feature)
+    #if __has_feature(address_sanitizer)
+        #include <sanitizer/asan_interface.h>
+        #define CERAS_MONITOR_RETIRE( ADDRESS, SIZE ) ASAN_POISON_MEMORY_REGION( ADDRESS, SIZE )
+        #define CERAS_MONITOR_REVIVE( ADDRESS, SIZE ) ASAN_UNPOISON_MEMORY_REGION( ADDRESS, SIZE )
+    #endif
+#endif
+#ifndef CERAS_MONITOR_RETIRE
+    #define CERAS_MONITOR_RETIRE( ADDRESS, SIZE ) ((void)0)
+    #define CERAS_MONITOR_REVIVE( ADDRESS, SIZE ) ((void)0)
+#endif
+
 namespace ceras
 {
 
@@ -47,6 +60,7 @@ namespace ceras
                 if ( search != reserved_memory.end() )
                 {
                     std::byte* ans = search->second;
+                    CERAS_MONITOR_REVIVE( ans, size );
                     allocated_memory.emplace( size, ans );
                     reserved_memory.erase( search );
                     return ans;
@@ -77,6 +91,7 @@ namespace ceras
             {
                 allocated_memory.erase( memory{size, ptr} );
                 reserved_memory.emplace( size, ptr );
+                CERAS_MONITOR_RETIRE( ptr, size );
             }
 
             ~memory_cache()
@@ -91,6 +106,7 @@ namespace ceras
 
                 for ( auto& [size, address] : reserved_memory )
                 {
+                    CERAS_MONITOR_REVIVE( address, size );
                     alloc.deallocate( address, size );
                 }
             }
@@ -103,7 +119,10 @@ namespace ceras
 
                 std::allocator<std::byte> alloc;
                 for ( auto& [size, address] : reserved_memory )
+                {
+                    CERAS_MONITOR_REVIVE( address, size );
                     alloc.deallocate( address, size );
+                }
                 reserved_memory.clear();
 
                 return true;
-- 
2.43.0


From d7abb7b79924af38283929f7bee98668fbe750ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 67/87] fix: parallel visited indices outside of its range, or
 never ended, when the range lies close to the maximum of the index type

---
 include/utils/parallel.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index bf3fe00..71aadec 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -53,16 +53,14 @@ namespace ceras
             threads.reserve( total_cores-1 );
             std::uint_least64_t tasks_per_thread = ( dim_last - dim_first + total_cores - 1 ) / total_cores;
 
+            // clipped before adding `dim_first`, as the sum may not fit in Integer_Type
+            std::uint_least64_t const tasks = dim_last - dim_first;
+            auto const& slice_begin = [=]( std::uint_least64_t index ) { return static_cast<Integer_Type>( dim_first + std::min( tasks_per_thread * index, tasks ) ); };
+
             for ( auto index : range( total_cores-1 ) )
-            {
-                Integer_Type first = tasks_per_thread * index + dim_first;
-                first = std::min( first, dim_last );
-                Integer_Type last =  first + tasks_per_thread;
-                last = std::min( last, dim_last );
-                threads.emplace_back( std::thread{ job_slice, first, last } );
-            }
+                threads.emplace_back( std::thread{ job_slice, slice_begin( index ), slice_begin( index+1 ) } );
 
-            job_slice( std::min( static_cast<Integer_Type>( tasks_per_thread*(total_cores-1) + dim_first ), dim_last ), dim_last );
+            job_slice( slice_begin( total_cores-1 ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From db8fa0d9cf76a176151bdf33b3faccaa8ab3b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 68/87] fix: mnist/fashion_mnist load_data wrote out of bounds
 for truncated or oversized files and for labels above nine

---
 include/dataset.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dataset.hpp b/include/dataset.hpp
index 07f1abc..bad658f 100644
--- a/include/dataset.hpp
+++ b/include/dataset.hpp
@@ -44,6 +44,7 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                better_assert( image_data.size() >= offset && (image_data.size()-offset) % (28*28) == 0, "Not a whole number of images, file size is ", image_data.size() );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -53,11 +54,15 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                better_assert( label_data.size() >= offset, "No labels, file size is ", label_data.size() );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
                 for ( auto idx : range( samples ) )
+                {
+                    better_assert( label_data[idx+offset] < 10, "Label out of range: ", static_cast<int>(label_data[idx+offset]) );
                     ans_2d[idx][label_data[idx+offset]] = 1;
+                }
                 return ans;
             };
 
@@ -115,6 +120,7 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                better_assert( image_data.size() >= offset && (image_data.size()-offset) % (28*28) == 0, "Not a whole number of images, file size is ", image_data.size() );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -124,11 +130,15 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                better_assert( label_data.size() >= offset, "No labels, file size is ", label_data.size() );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
                 for ( auto idx : range( samples ) )
+                {
+                    better_assert( label_data[idx+offset] < 10, "Label out of range: ", static_cast<int>(label_data[idx+offset]) );
                     ans_2d[idx][label_data[idx+offset]] = 1;
+                }
                 return ans;
             };
 
-- 
2.43.0


From c37b908f5540c4f2346c714dc8b78d2005dac409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 69/87] fix: imageio::imresize handled a gray image as one of
 two channels, reading and writing out of bounds

---
 include/utils/imageio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 025d1e8..cb30e48 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -12,6 +12,7 @@ namespace ceras::imageio
     inline tensor<unsigned char> imresize( tensor<unsigned char> const& input_image, std::vector<unsigned long> const& output_shape )
     {
         std::vector<unsigned long> const& input_shape = input_image.shape();
+        better_assert( output_shape.size() == input_shape.size(), "Expecting same dimension for input and output, but the input is ", input_shape.size(), "D and the output is ", output_shape.size(), "D" );
         tensor<unsigned char> ans{ output_shape };
         if ( input_shape.size() == 3 )
         {
@@ -20,7 +21,7 @@ namespace ceras::imageio
         }
         else
         {
-            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 2 ); // gray
+            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 1 ); // gray
         }
 
         return ans;
-- 
2.43.0


From 827865e5903bd85e5d58598c0512108254327c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 70/87] fix: imageio::imwrite threw for a path without an
 extension instead of appending .png

---
 include/utils/imageio.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index cb30e48..2e9453d 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -53,7 +53,9 @@ namespace ceras::imageio
 
         // setting up extension
         std::string full_path = path;
-        std::string file_extension=full_path.substr(full_path.find_last_of('.'));
+        std::string file_extension;
+        if ( auto const pos = full_path.find_last_of('.'); pos != std::string::npos )
+            file_extension = full_path.substr( pos );
         if ( file_extension.empty() )
         {
             full_path += std::string{".png"};
-- 
2.43.0


From 1594bee9f03f7d2290d78af655d485fa982841bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 71/87] fix: imageio::imwrite to a .hdr file read the bytes of
 the image as floats, out of bounds

---
 include/utils/imageio.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 2e9453d..3b50b20 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -75,7 +75,14 @@ namespace ceras::imageio
             return 0 != stbi_write_jpg( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ), 100 );
 
         if ( file_extension == std::string{".hdr"} )
-            return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, reinterpret_cast<const float*>( image.data() ) );
+        {
+            if constexpr( std::is_same_v<typename Tsor::value_type, float> )
+                return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, image.data() );
+            std::vector<float> pixels( image.size() );
+            for ( auto idx : range( image.size() ) )
+                pixels[idx] = std::pow( static_cast<float>( image.data()[idx] ) / 255.0f, 2.2f ); // the inverse of what stbi_load does
+            return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, pixels.data() );
+        }
 
         // reaching here, the extension is unknown, png is the last chance
         full_path += std::string{".png"};
-- 
2.43.0


From 1868beadbadf4c3efc5a7ee59446a5b9f3a5417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 72/87] fix: writing a bmp, tga, jpg or hdr image started from
 an uninitialised buffer position (as in stb_image_write 1.16)

---
 include/utils/3rd_party/stb_image_write.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/utils/3rd_party/stb_image_write.h b/include/utils/3rd_party/stb_image_write.h
index df4de33..ec47b21 100644
--- a/include/utils/3rd_party/stb_image_write.h
+++ b/include/utils/3rd_party/stb_image_write.h
@@ -499,7 +499,7 @@ static int stbi_write_bmp_core(stbi__write_context *s, int x, int y, int comp, c
 
 STBIWDEF int stbi_write_bmp_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = {0};
+   stbi__write_context s = { 0 };// = {0};
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_bmp_core(&s, x, y, comp, data);
 }
@@ -507,7 +507,7 @@ STBIWDEF int stbi_write_bmp_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_bmp(char const *filename, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = {0};
+   stbi__write_context s = { 0 };// = {0};
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_bmp_core(&s, x, y, comp, data);
       stbi__end_write_file(&s);
@@ -598,7 +598,7 @@ static int stbi_write_tga_core(stbi__write_context *s, int x, int y, int comp, v
 
 STBIWDEF int stbi_write_tga_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };// = 0;
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_tga_core(&s, x, y, comp, (void *) data);
 }
@@ -606,7 +606,7 @@ STBIWDEF int stbi_write_tga_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_tga(char const *filename, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };// = 0;
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_tga_core(&s, x, y, comp, (void *) data);
       stbi__end_write_file(&s);
@@ -772,7 +772,7 @@ static int stbi_write_hdr_core(stbi__write_context *s, int x, int y, int comp, f
 
 STBIWDEF int stbi_write_hdr_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const float *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };// = 0;
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_hdr_core(&s, x, y, comp, (float *) data);
 }
@@ -780,7 +780,7 @@ STBIWDEF int stbi_write_hdr_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_hdr(char const *filename, int x, int y, int comp, const float *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };// = 0;
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_hdr_core(&s, x, y, comp, (float *) data);
       stbi__end_write_file(&s);
@@ -1576,7 +1576,7 @@ static int stbi_write_jpg_core(stbi__write_context *s, int width, int height, in
 
 STBIWDEF int stbi_write_jpg_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data, int quality)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };// = 0;
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_jpg_core(&s, x, y, comp, (void *) data, quality);
 }
@@ -1585,7 +1585,7 @@ STBIWDEF int stbi_write_jpg_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_jpg(char const *filename, int x, int y, int comp, const void *data, int quality)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };// = 0;
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_jpg_core(&s, x, y, comp, data, quality);
       stbi__end_write_file(&s);
-- 
2.43.0


From b6aa6d7fc24f6cf8dad74b7853697878ce29813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 73/87] fix: computation_graph drew the operands of an
 expression once per use of it

---
 include/operation.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2be7bc6..8e26e24 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -396,8 +396,12 @@ namespace ceras
             return std::make_tuple( node, label );
         };
 
-        auto generate_dot = [&generate_node_and_label]<Expression Expr>( Expr const& expr, auto const& _generate_dot ) noexcept
+        std::set<int> visited; // an expression used several times is described only once
+        auto generate_dot = [&generate_node_and_label, &visited]<Expression Expr>( Expr const& expr, auto const& _generate_dot ) noexcept
         {
+            if ( !visited.insert( expr.id() ).second )
+                return std::string{};
+
             auto const& [node, label] = generate_node_and_label( expr );
             std::string const& expr_dot = node + std::string{" [label=\""} + label + std::string{"\"] ;\n"};
 
-- 
2.43.0


From b63ff80e2d916f0d0c428115d22b6faf1c547207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 74/87] fix: broadcast_tensor read out of bounds for a target
 of fewer dimensions

---
 include/tensor.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index b203467..01a276e 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -306,6 +306,8 @@ namespace ceras
         if ( tsor.shape() == new_shape )
             return tsor;
 
+        better_assert( tsor.ndim() <= new_shape.size(), "broadcast_tensor: cannot broadcast a tensor of ", tsor.ndim(), " dimensions to ", new_shape.size(), " dimensions" );
+
         auto _ans = tsor;
         std::vector<unsigned long> updated_shape = _ans.shape();
         if (updated_shape.size() < new_shape.size())
-- 
2.43.0


From f46d9b768f9e1a9de051eafd50c93bc2c02d993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 75/87] fix: elementwise_product divided by zero for an empty
 operand, and took operands of unrelated shapes as long as the sizes divide

---
 include/tensor.tcc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 01a276e..aefff5c 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -720,6 +720,13 @@ namespace ceras
         unsigned long const r_size = rhs.size();
         if ( l_size < r_size || ( l_size == r_size && lhs.ndim() < rhs.ndim() ) ) return elementwise_product(rhs, lhs);
 
+        // the smaller operand is repeated along the leading dimensions, the trailing ones must agree
+        std::vector<unsigned long> const l_shape = lhs.shape();
+        std::vector<unsigned long> const r_shape = rhs.shape();
+        auto const r_begin = std::find_if( r_shape.begin(), r_shape.end(), []( unsigned long dim ) { return dim != 1UL; } );
+        unsigned long const trailing_dims = std::distance( r_begin, r_shape.end() );
+        better_assert( r_size != 0 && trailing_dims <= l_shape.size() && std::equal( r_begin, r_shape.end(), l_shape.end() - trailing_dims ), fmt::format( "elementwise_product: shapes {} and {} do not match", l_shape, r_shape ) );
+
         unsigned long const repeats = l_size / r_size;
         better_assert( (r_size * repeats) == l_size, "Dimension is not match!" );
 
-- 
2.43.0


From 06807e70f6d6ff0f6d313164a695f96171ad33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 76/87] fix: mean, variance and standard_deviation along an
 axis out of range read the shape out of bounds

---
 include/tensor.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index aefff5c..7a6fec6 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1160,6 +1160,7 @@ namespace ceras
     {
         typedef typename Tsor::value_type value_type;
         axis = ( axis == static_cast<unsigned long>( -1 ) ) ? ts.ndim()-1 : axis;
+        better_assert( axis < ts.ndim(), "Error with tensor::mean, input axis ", axis, " is too large for a tensor with ", ts.ndim(), " dimensions." );
         auto const& _shape = ts.shape();
         return reduce( ts, axis, value_type{0}, []( auto const& a, auto const& b ){ return a+b; }, keepdims ) / static_cast<value_type>( _shape[axis] );
     }
-- 
2.43.0


From a4c4cba366951135c5075bd590d629772375faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 77/87] fix: reducing a tensor with a zero dimension kept the
 dimension, so that the backward pass of plus and minus never ended

---
 include/tensor.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 7a6fec6..90be887 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1117,7 +1117,7 @@ namespace ceras
     template< Tensor Tsor, typename Function >
     Tsor reduce( Tsor const& ts, unsigned long axis, typename Tsor::value_type const& init, Function const& func, bool keepdims=false ) noexcept
     {
-        if ( ts.empty() ) return ts;
+        if ( 0 == ts.ndim() ) return ts;
 
         axis = (axis == static_cast<unsigned long>( -1 )) ? ts.ndim()-1 : axis;
         better_assert( axis < ts.ndim(), "Error with tensor::reduce, input axis ", axis, " is too large for a tensor with ", ts.ndim(), " dimensions." );
@@ -1130,8 +1130,10 @@ namespace ceras
         _shape[axis] = 1UL;
 
         Tsor ans{ _shape };
+        if ( 0 == n ) // nothing to reduce
+            std::fill( ans.begin(), ans.end(), init );
         auto itor = ans.begin();
-        for ( auto idx : range( pres ) )
+        for ( auto idx : range( n ? pres : 0UL ) )
             for ( auto jdx : range( post ) )
             {
                 auto start = ts.begin() + idx * post * n + jdx;
-- 
2.43.0


From 3caab7cd0f7908e2c2d3d245b638aab8e10e19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 78/87] fix: flip of an empty tensor left the shape of the
 answer behind

---
 include/tensor.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 90be887..ffa98f7 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1425,7 +1425,10 @@ namespace ceras
     void flip( Tsor const& tsor, int axis, Tsor& ans )
     {
         if ( 0 == tsor.size() )
+        {
+            ans.resize( tsor.shape() );
             return;
+        }
 
         unsigned long const ndim = tsor.ndim();
         better_assert( (4 >= ndim), fmt::format( "Expect a tensor up to 4D, but got {} dimensions.", ndim ) );
-- 
2.43.0


From 71fa802e6330a84a7f7013eb7df17b9c22408548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 79/87] fix: reshape divided by zero for a shape with a zero
 dimension; softmax and concatenate on empty tensors

---
 include/operation.hpp | 1 +
 include/tensor.hpp    | 3 +++
 include/tensor.tcc    | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 8e26e24..1fb2de9 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1131,6 +1131,7 @@ namespace ceras
                 {
                     unsigned long const new_size = std::accumulate( new_shape.begin(), new_shape.end(), 1UL, []( auto x, auto y ){ return x*y; } );
                     unsigned long const total_size = tsor.size();
+                    better_assert( new_size != 0, "reshape operator: expecting a new shape without zero dimensions" );
                     unsigned long const batch_size = total_size / new_size;
 
                     better_assert( batch_size * new_size == total_size, "size mismatch for reshape operator, expect ",  batch_size*new_size, " but total input size is ", total_size, ", where batch_size is ", batch_size );
diff --git a/include/tensor.hpp b/include/tensor.hpp
index 867eb9d..1fd8310 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -355,7 +355,10 @@ namespace ceras
         {
             std::vector<unsigned long> _new_shape = new_shape;
             if ( !_new_shape.empty() && *(_new_shape.rbegin()) == static_cast<unsigned long>( -1 ) )
+            {
+                better_assert( std::find( _new_shape.begin(), _new_shape.end()-1, 0UL ) == _new_shape.end()-1, "reshape: cannot deduce the last dimension when another one is 0" );
                 *(_new_shape.rbegin()) = (*this).size() / std::accumulate( _new_shape.begin(), _new_shape.end()-1, 1Ul, []( unsigned long x, unsigned long y ){ return x*y; } );
+            }
 
             unsigned long const new_size = std::accumulate( _new_shape.begin(), _new_shape.end(), 1UL, [](auto x, auto y){ return x*y; } );
             if ( (*this).size() != new_size ) return resize( _new_shape );
diff --git a/include/tensor.tcc b/include/tensor.tcc
index ffa98f7..ffe2e57 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -953,6 +953,7 @@ namespace ceras
         std::vector<unsigned long> result_shape = l_shape;
         result_shape[axis] += r_shape[axis];
         Tsor ans{ result_shape };
+        if ( 0 == ans.size() ) return ans;
         auto target_memory_position = ans.data();
 
         for ( auto idx = 0UL; idx != memory_copy_times; ++idx )
@@ -1081,7 +1082,7 @@ namespace ceras
     Tsor softmax( Tsor const& tsor )
     {
         typedef typename Tsor::value_type value_type;
-        better_assert( !tsor.empty(), "softmax argument is an empty tensor. " );
+        better_assert( !tsor.empty() && tsor.ndim() != 0, "softmax argument is an empty tensor. " );
         Tsor ans = tsor.deep_copy();
         unsigned long const last_dim = *(tsor.shape().rbegin());
         unsigned long const rem_dim = tsor.size() / last_dim;
-- 
2.43.0


From 7af10aca024021066f8c16d48580bdbfd47fe000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 80/87] fix: expand_dims with an axis out of range inserted out
 of bounds

---
 include/operation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 1fb2de9..9e92153 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1249,6 +1249,7 @@ namespace ceras
                     Tsor ans = tsor;
                     std::vector<unsigned long> shape = ans.shape();
                     int const _axis = (axis == -1) ? shape.size() : axis;
+                    better_assert( _axis >= 0 && _axis <= static_cast<int>( shape.size() ), fmt::format( "expand_dims: axis {} is out of range for shape {}", axis, shape ) );
                     shape.insert( shape.begin()+_axis, 1UL );
                     ans.reshape( shape );
                     return ans;
@@ -1266,6 +1267,7 @@ namespace ceras
                     //int offset = axis;
                     //if ( axis == -1 ) offset = ans.size();
                     int const offset = (axis == -1) ? shape.size() : axis;
+                    better_assert( offset >= 0 && offset <= static_cast<int>( shape.size() ), fmt::format( "expand_dims: axis {} is out of range for shape {}", axis, shape ) );
                     ans.insert( ans.begin()+offset, 1UL );
                     return ans;
                 },
-- 
2.43.0


From e2259d8d19df3dbfe1ef38f9d8d17a05b18d41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 81/87] fix: argmax, batch normalization, mean_reduce and
 reductions of empty or scalar tensors, and the shape of concatenate, went out
 of bounds

---
 include/operation.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 9e92153..388ca89 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -980,7 +980,7 @@ namespace ceras
                                         better_assert( grad.size() == 1, "mean_reduce should only output one value" );
                                         Tsor ans = ones_like( input );
                                         ans *= grad[0];
-                                        unsigned long const batch_size = (input.shape().size() == 1) ? 1 : (*(input.shape().begin()));
+                                        unsigned long const batch_size = (input.shape().size() <= 1) ? 1 : (*(input.shape().begin()));
                                         ans /= static_cast<typename Tsor::value_type>(batch_size);
                                         return ans;
                                     },
@@ -1351,6 +1351,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> const& shape = input.shape();
                     better_assert( axis < shape.size(), fmt::format("axis {} is greater than the dimension of the input tensor shape {}", axis, shape) );
+                    better_assert( !input.empty(), "argmax: expecting a non-empty tensor" );
 
                     // calculate the output tensor shape
                     std::vector<unsigned long> output_shape = shape;
@@ -2270,6 +2271,7 @@ namespace ceras
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
                 {
                     better_assert( input.ndim() > 1, "normalization_batch requires input dimension at least 2, got ", input.ndim() );
+                    better_assert( !input.empty(), "normalization_batch requires a non-empty input" );
 
                     typedef typename Tsor::value_type value_type;
                     //typedef typename Tsor::allocator allocator;
@@ -2482,6 +2484,7 @@ namespace ceras
                     // more assertion ?
                     std::vector<unsigned long> ans = l;
                     auto new_axe = (axe > ans.size()) ? (ans.size() - 1) : axe;
+                    better_assert( new_axe < ans.size(), "concatenate: axis is too large: axis-", axe, " for ", ans.size(), " dimensions" );
                     ans[new_axe] += r[new_axe];
                     return ans;
                 },
@@ -3152,6 +3155,7 @@ namespace ceras
                     return [=]<Tensor Tsor>( Tsor const& input ) noexcept
                     {
                         if ( 1UL == repeats ) return input;
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         auto const& shape = input.shape();
@@ -3186,6 +3190,7 @@ namespace ceras
                     return [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                     {
                         if ( 1UL == repeats ) return grad;
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         auto const& shape = input.shape();
@@ -3264,6 +3269,7 @@ namespace ceras
                 {
                     return [=]<Tensor Tsor>( Tsor const& input ) noexcept
                     {
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         // example: for an input tensor of shape ( 2, 3, 4, 5 ), and axis is 1
@@ -3312,6 +3318,7 @@ namespace ceras
                 {
                     return [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                     {
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         // example: for an input tensor of shape ( 2, 3, 4, 5 ), and axis is 1
@@ -3399,6 +3406,7 @@ namespace ceras
                 {
                     return [=]<Tensor Tsor>( Tsor const& input ) noexcept
                     {
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         // example: for an input tensor of shape ( 2, 3, 4, 5 ), and axis is 1
@@ -3447,6 +3455,7 @@ namespace ceras
                 {
                     return [=]<Tensor Tsor>( Tsor const& input, Tsor const& , Tsor const& grad ) noexcept
                     {
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         // example: for an input tensor of shape ( 2, 3, 4, 5 ), and axis is 1
@@ -3536,6 +3545,7 @@ namespace ceras
                     {
                         typedef typename Tsor::value_type value_type;
 
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         // example: for an input tensor of shape ( 2, 3, 4, 5 ), and axis is 1
@@ -3572,6 +3582,7 @@ namespace ceras
                 {
                     return [=]<Tensor Tsor>( Tsor const& input, Tsor const& , Tsor const& grad ) noexcept
                     {
+                        better_assert( !input.empty() && input.ndim() != 0, "expecting a non-empty tensor" );
                         unsigned long const ax = std::min( axis, input.shape().size()-1 );
 
                         // example: for an input tensor of shape ( 2, 3, 4, 5 ), and axis is 1
-- 
2.43.0


From 7f6680b8fbbecedda009cec45852521ae14c19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 82/87] fix: cross_entropy_loss read the prediction out of
 bounds when the ground truth is larger

---
 include/loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/loss.hpp b/include/loss.hpp
index f20f36b..3db7f27 100644
--- a/include/loss.hpp
+++ b/include/loss.hpp
@@ -65,6 +65,7 @@ namespace ceras
             {
                 return [label_smoothing_factor]<Tensor Tsor>( Tsor const& ground_truth_input, Tsor const& prediction_input ) noexcept
                 {
+                   better_assert( ground_truth_input.shape() == prediction_input.shape(), "cross_entropy_loss: expecting ground truth and prediction of the same shape" );
                    Tsor sm = softmax( prediction_input );
                    typedef typename Tsor::value_type value_type;
                    typename Tsor::value_type ans{0};
-- 
2.43.0


From 5dc2e14b3ad66cd2324f4d6ea9bd9aa971b86829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 83/87] fix: fit and evaluate divided by a zero batch size, and
 read the outputs out of bounds when there are fewer than inputs

---
 include/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/model.hpp b/include/model.hpp
index c6e0a82..c2507da 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -95,6 +95,8 @@ namespace ceras
         auto evaluate( Tsor const& inputs, Tsor const& outputs, unsigned long batch_size=32 )
         {
             // extract size of samples
+            better_assert( batch_size != 0, "expecting a batch size of at least 1" );
+            better_assert( inputs.ndim() != 0 && outputs.ndim() != 0 && *(inputs.shape().begin()) <= *(outputs.shape().begin()), "expecting at least as many outputs as inputs" );
             unsigned long const samples = *(inputs.shape().begin());
             unsigned long const loops = samples / batch_size;
 
@@ -164,6 +166,8 @@ namespace ceras
         auto fit( Tsor const& inputs, Tsor const& outputs, unsigned long batch_size, unsigned long epoch=1, int verbose=0, double validation_split=0.0 )
         {
             // extract size of samples
+            better_assert( batch_size != 0, "expecting a batch size of at least 1" );
+            better_assert( inputs.ndim() != 0 && outputs.ndim() != 0 && *(inputs.shape().begin()) <= *(outputs.shape().begin()), "expecting at least as many outputs as inputs" );
             unsigned long const samples = *(inputs.shape().begin());
             unsigned long const loops_per_epoch = samples / batch_size;
             unsigned long const training_loops = ( 1.0 - validation_split ) * loops_per_epoch;
-- 
2.43.0


From 85f48fd68f53223252bc929d5b15380f3a6a5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 84/87] fix: a convolution with a kernel larger than the image,
 or a stride or dilation of 0, went out of bounds or divided by zero

---
 include/operation.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 388ca89..08fa6d3 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1541,6 +1541,7 @@ namespace ceras
                          unsigned long const row_dilation=1, unsigned long const col_dilation=1 ) noexcept
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
+        better_assert( row_kernel && col_kernel && row_stride && col_stride && row_dilation && col_dilation, "img2col: expecting kernel sizes, strides and dilations of at least 1" );
 
         auto img2col_forward = []<Tensor Tsor>
         (
@@ -1558,6 +1559,7 @@ namespace ceras
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
             auto const [BS, R, C, CH] = std::make_tuple( input_shape[0], input_shape[1], input_shape[2], input_shape[3] );
+            better_assert( R + 2 * padding_row >= dilation_row * (kernel_row - 1) + 1 && C + 2 * padding_col >= dilation_col * (kernel_col - 1) + 1, fmt::format( "img2col: the kernel does not fit an input of shape {}", input_shape ) );
 
             unsigned long const output_row = ( R + 2 * padding_row - ( dilation_row * (kernel_row - 1) + 1 ) ) / stride_row + 1;
             unsigned long const output_col = ( C + 2 * padding_col - ( dilation_col * (kernel_col - 1) + 1 ) ) / stride_col + 1;
@@ -1660,6 +1662,7 @@ namespace ceras
                     better_assert( shape.size() == 4, fmt::format("Expecting a 4D tensor, but got {}.", shape.size()) );
                     auto const [BS, R, C, CH] = std::make_tuple( shape[0], shape[1], shape[2], shape[3] );
 
+                    better_assert( R + 2 * row_padding >= row_dilation * (row_kernel - 1) + 1 && C + 2 * col_padding >= col_dilation * (col_kernel - 1) + 1, fmt::format( "img2col: the kernel does not fit an input of shape {}", shape ) );
                     unsigned long const output_row = ( R + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
                     unsigned long const output_col = ( C + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
                     unsigned long const output_column_matrix_row = row_kernel * col_kernel * CH;
@@ -1690,6 +1693,7 @@ namespace ceras
             std::vector<unsigned long> const& shape = rhs_ex.shape();
             better_assert( shape.size() == 4 );
             auto const[new_channel, row_kernel, col_kernel, channel] = std::make_tuple( shape[0], shape[1], shape[2], shape[3] );
+            better_assert( row_kernel && col_kernel && row_stride && col_stride && row_dilation && col_dilation, "conv2d: expecting kernel sizes, strides and dilations of at least 1" );
             //TODO: optimization in case of small kernels of (1, 1), (3, 3)
             unsigned long row_padding = 0;
             unsigned long col_padding = 0;
@@ -1703,6 +1707,8 @@ namespace ceras
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
             }
 
+            better_assert( row_padding < (1UL<<62) && col_padding < (1UL<<62), "conv2d: a kernel smaller than the stride has no 'same' padding" );
+            better_assert( row_input + 2 * row_padding >= row_dilation * (row_kernel - 1) + 1 && col_input + 2 * col_padding >= col_dilation * (col_kernel - 1) + 1, fmt::format( "conv2d: a kernel of {}x{} does not fit an input of {}x{}", row_kernel, col_kernel, row_input, col_input ) );
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
             unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
@@ -1746,6 +1752,7 @@ namespace ceras
             std::vector<unsigned long> const& shape = rhs_ex.shape();
             better_assert( shape.size() == 4 );
             auto const[new_channel, row_kernel, col_kernel, channel] = std::make_tuple( shape[0], shape[1], shape[2], shape[3] );
+            better_assert( row_kernel && col_kernel && row_stride && col_stride && row_dilation && col_dilation, "conv2d: expecting kernel sizes, strides and dilations of at least 1" );
             unsigned long row_padding = 0;
             unsigned long col_padding = 0;
             if ( padding == "same" )
@@ -1756,6 +1763,8 @@ namespace ceras
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
             }
 
+            better_assert( row_padding < (1UL<<62) && col_padding < (1UL<<62), "conv2d: a kernel smaller than the stride has no 'same' padding" );
+            better_assert( row_input + 2 * row_padding >= row_dilation * (row_kernel - 1) + 1 && col_input + 2 * col_padding >= col_dilation * (col_kernel - 1) + 1, fmt::format( "conv2d: a kernel of {}x{} does not fit an input of {}x{}", row_kernel, col_kernel, row_input, col_input ) );
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
             unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
-- 
2.43.0


From ea172878db4817a4a579e1e6fe09e325a06de9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 85/87] fix: the shape of several expressions was calculated
 out of bounds for operands of too few dimensions

---
 include/operation.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 08fa6d3..5fc12b1 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1168,6 +1168,7 @@ namespace ceras
                         return new_shape;
 
                     unsigned long const new_size = std::accumulate( new_shape.begin(), new_shape.end(), 1UL, []( auto x, auto y ){ return x*y; } );
+                    better_assert( new_size != 0, "reshape operator: expecting a new shape without zero dimensions" );
                     unsigned long const total_size = std::accumulate( shape.begin(), shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const batch_size = total_size / new_size;
                     std::vector<unsigned long> batched_new_shape;
@@ -1210,6 +1211,7 @@ namespace ceras
             {
                 better_assert( tsor.ndim() > 1, "Expecting dimension of incoming tensor to be greater than 1, but got ", tsor.ndim() );
                 unsigned long const batch_size = *(tsor.shape().begin());
+                better_assert( batch_size != 0, "flatten: expecting at least one sample" );
                 unsigned long const rem = tsor.size() / batch_size;
                 Tsor ans = tsor;
                 return ans.reshape( {batch_size, rem} );
@@ -1222,6 +1224,7 @@ namespace ceras
             "flatten",
             []( std::vector<unsigned long> const& shape ) noexcept
             {
+                better_assert( !shape.empty(), "flatten: expecting at least one dimension" );
                 unsigned long const total = std::accumulate( shape.begin()+1, shape.end(), 1, []( unsigned long x, unsigned long y ){ return x*y; } );
                 return std::vector<unsigned long>{ {shape[0], total,} }; // the 1st dim is batch size
             }
@@ -1310,6 +1313,7 @@ namespace ceras
                         return std::vector<unsigned long>{ {1UL,} };
                     }
 
+                    better_assert( axis >= 0 && static_cast<unsigned long>( axis ) < shape.size(), fmt::format( "squeeze: axis {} is out of range for shape {}", axis, shape ) );
                     std::vector<unsigned long> ans = shape;
                     std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+axis );
                     ans.resize( shape.size()-1 );
@@ -1394,6 +1398,7 @@ namespace ceras
                 "argmax",
                 [axis]( std::vector<unsigned long> const& shape ) noexcept
                 {
+                    better_assert( axis < shape.size(), fmt::format("axis {} is greater than the dimension of the input tensor shape {}", axis, shape) );
                     std::vector<unsigned long> ans = shape;
                     std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+axis );
                     ans.resize( ans.size() - 1 );
@@ -2908,7 +2913,7 @@ namespace ceras
                 zero_padding_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
                 zero_padding_2d_context{}.make_backward()( top, bottom, left, right, backward_cache ),
                 "zero_padding_2d",
-                [=]( std::vector<unsigned long> const& shape ) noexcept { return std::vector<unsigned long>{ {shape[0], shape[1]+top+bottom, shape[2]+left+right, shape[3]} }; },
+                [=]( std::vector<unsigned long> const& shape ) noexcept { better_assert( shape.size() == 4, "expecting shape size of 4, but got ", shape.size() ); return std::vector<unsigned long>{ {shape[0], shape[1]+top+bottom, shape[2]+left+right, shape[3]} }; },
                 make_argumented_operator_serializer( padding )
             )( ex );
         };
@@ -3035,6 +3040,7 @@ namespace ceras
                 "cropping_2d",
                 [=]( std::vector<unsigned long> const& shape ) noexcept
                 {
+                    better_assert( shape.size() == 4, "expecting shape size of 4, but got ", shape.size() );
                     return std::vector<unsigned long>{ {shape[0], shape[1]-top-bottom, shape[2]-left-right, shape[3]} };
                 },
                 make_argumented_operator_serializer( padding )
@@ -3257,6 +3263,7 @@ namespace ceras
                 [=]( std::vector<unsigned long> const& shape ) noexcept
                 {
                     std::vector<unsigned long> ans = shape;
+                    better_assert( !shape.empty(), "expecting at least one dimension" );
                     auto new_axis = std::min( axis, ans.size()-1 );
                     ans[new_axis] *= repeats;
                     return ans;
@@ -3392,6 +3399,7 @@ namespace ceras
                 [=]( std::vector<unsigned long> const& shape ) noexcept
                 {
                     std::vector<unsigned long> ans = shape;
+                    better_assert( !shape.empty(), "expecting at least one dimension" );
                     auto new_axis = std::min( axis, shape.size()-1 );
                     std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
@@ -3529,6 +3537,7 @@ namespace ceras
                 [=]( std::vector<unsigned long> const& shape ) noexcept
                 {
                     std::vector<unsigned long> ans = shape;
+                    better_assert( !shape.empty(), "expecting at least one dimension" );
                     auto const new_axis = std::min( axis, shape.size()-1 );
                     std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
@@ -3647,6 +3656,7 @@ namespace ceras
                 [=]( std::vector<unsigned long> const& shape ) noexcept
                 {
                     std::vector<unsigned long> ans = shape;
+                    better_assert( !shape.empty(), "expecting at least one dimension" );
                     auto const new_axis = std::min( axis, shape.size()-1 );
                     std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
-- 
2.43.0


From 6d897c13bfedaf04db50e6fda5c39f761db248c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 86/87] fix: the backward pass of concatenate divided by zero
 for empty operands

---
 include/operation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 5fc12b1..e68babd 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2464,6 +2464,8 @@ namespace ceras
                     better_assert(  l_ans.size() + r_ans.size() == grad.size(), "size mismatch: lhs size is ", l_ans.size(), " rhs size is ", r_ans.size(), " and grad size is ", grad.size(),
                                     " with lhs dim is ", l_ans.ndim(), "  and rhs dim is ", r_ans.ndim() );
 
+                    if ( 0 == grad.size() ) return std::make_tuple( l_ans, r_ans );
+
                     // 2D view of grad
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
                     std::vector<unsigned long> const& grad_shape = grad.shape();
-- 
2.43.0


From 17fa569e867d0bbbb24afa75d242ce4f2f56193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 87/87] fix: flip and softmax of a tensor without dimensions,
 and sliding_2d of less than 4, went out of bounds

---
 include/activation.hpp | 2 +-
 include/operation.hpp  | 1 +
 include/tensor.tcc     | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 3ecfefe..78a1392 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -91,7 +91,7 @@ namespace ceras
     {
         return make_unary_operator( []<Tensor Tsor>( Tsor const& input ) noexcept
                                     {
-                                        better_assert( !input.empty(), "softmax forward: input tensor is empty!" );
+                                        better_assert( !input.empty() && input.ndim() != 0, "softmax forward: input tensor is empty!" );
                                         Tsor x = deep_copy( input );
                                         std::size_t const last_dim = *(x.shape().rbegin());
                                         std::size_t const rest_dim = x.size() / last_dim;
diff --git a/include/operation.hpp b/include/operation.hpp
index e68babd..3dab0d0 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3068,6 +3068,7 @@ namespace ceras
 
                         typedef typename Tsor::value_type value_type;
                         std::vector<unsigned long> const& shape = tsor.shape();
+                        better_assert( shape.size() == 4, "sliding_2d: expecting a 4D tensor, but got ", shape.size(), " dimensions" );
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
                         view_4d vi{tsor.data(), batch_size, row, col, channel};
 
diff --git a/include/tensor.tcc b/include/tensor.tcc
index ffe2e57..593bb91 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1432,7 +1432,7 @@ namespace ceras
         }
 
         unsigned long const ndim = tsor.ndim();
-        better_assert( (4 >= ndim), fmt::format( "Expect a tensor up to 4D, but got {} dimensions.", ndim ) );
+        better_assert( (4 >= ndim && 0 != ndim), fmt::format( "Expect a tensor up to 4D, but got {} dimensions.", ndim ) );
 
         if (-1 == axis)
             axis = static_cast<int>( ndim - 1 );
-- 
2.43.0

