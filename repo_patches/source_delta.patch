From c8ada5a9fef9d3c008bbcffe62ab689d89b5335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 01/27] fix: refuse null variables and factors in the factor
 graph instead of dereferencing them

---
 src/factorama/factor_graph.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..3cf6952 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -7,6 +7,9 @@ namespace factorama
 {
     void FactorGraph::add_variable(const std::shared_ptr<Variable>& variable)
     {
+        if (!variable) {
+            throw std::runtime_error("FactorGraph: cannot add a null variable.");
+        }
         if (variables_map_.find(variable->id()) != variables_map_.end()) {
             throw std::runtime_error("Variable with ID " + std::to_string(variable->id()) +
                                      " already exists in factor graph. Variable IDs must be unique.");
@@ -17,6 +20,9 @@ namespace factorama
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
     {
+        if (!factor) {
+            throw std::runtime_error("FactorGraph: cannot add a null factor.");
+        }
         if (factors_map_.find(factor->id()) != factors_map_.end()) {
             throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) +
                                      " already exists in factor graph. Factor IDs must be unique.");
@@ -264,7 +270,8 @@ namespace factorama
 
             for (const auto& var : factor->variables()) {
                 if (var == nullptr) {
-                    throw std::runtime_error("Factor: " + factor->name() + "variable was null");
+                    // note: name() may dereference the null variable, so identify the factor by its ID
+                    throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) + ": variable was null");
                 }
 
                 if (var->is_constant()) {
-- 
2.43.0


From 6ee75e6ce39356a734c4d0d588bd6709a208163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 02/27] fix: key factor placements by factor ID, as
 factor_placement(id) expects

---
 src/factorama/factor_graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 3cf6952..e28b562 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -290,7 +290,7 @@ namespace factorama
             }
 
 
-            factor_placement_[i] = placement;
+            factor_placement_[factor->id()] = placement;
             row_offset += placement.residual_dim;
         }
 
@@ -308,7 +308,7 @@ namespace factorama
         Eigen::VectorXi num_sparse_rows = Eigen::VectorXi::Zero(num_values_);
         // for (const auto &fp : factor_placement_)
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             // const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
             for (auto& var : fp.factor->variables()) {
@@ -339,7 +339,7 @@ namespace factorama
         std::vector<int> current_row_index(num_values_, 0);
 
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
 
@@ -389,7 +389,7 @@ namespace factorama
         for (size_t factor_ind = 0; factor_ind < factors_.size(); factor_ind++)
         // for (const auto &it : factor_placement_)
         {
-            auto factor_placement = factor_placement_[factor_ind];
+            const auto& factor_placement = factor_placement_[factors_[factor_ind]->id()];
             // auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
             // const int row_offset = factor_placement.residual_index;
-- 
2.43.0


From 8b5bd3e9d8632d3b012c5150c1cad6a4d517fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 03/27] fix: never answer from a structure that changed since
 finalize_structure()

Registrations and constness changes after finalization, and refused or
failing evaluations, left stale placements and cached results in use.
---
 src/factorama/factor_graph.cpp | 133 +++++++++++++++++++++++----------
 src/factorama/factor_graph.hpp |  17 +++--
 2 files changed, 107 insertions(+), 43 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index e28b562..e48bb61 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -16,6 +16,8 @@ namespace factorama
         }
         variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
+        structure_finalized_ = false;
+        invalidate_cached_results();
     }
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
@@ -29,6 +31,8 @@ namespace factorama
         }
         factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
+        structure_finalized_ = false;
+        invalidate_cached_results();
     }
 
     Variable *FactorGraph::get_variable(int id) const
@@ -49,6 +53,8 @@ namespace factorama
 
     Eigen::VectorXd FactorGraph::get_variable_vector() const
     {
+        require_current_structure("get_variable_vector");
+
         Eigen::VectorXd x(num_values());
         int offset = 0;
         for (const auto& var : variables_vector_) {
@@ -77,6 +83,13 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        require_current_structure("set_variable_values_from_vector");
+
+        if (x.size() != num_values_) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(num_values_) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
@@ -88,9 +101,7 @@ namespace factorama
 
     void FactorGraph::apply_increment(const Eigen::VectorXd& dx)
     {
-        if (!structure_finalized_) {
-            throw std::runtime_error("apply_increment: must call finalize_structure() first");
-        }
+        require_current_structure("apply_increment");
 
         if (dx.size() != num_values_) {
             throw std::runtime_error("apply_increment: increment vector size (" + std::to_string(dx.size()) +
@@ -122,14 +133,14 @@ namespace factorama
 
     Eigen::VectorXd& FactorGraph::compute_full_residual_vector()
     {
-        if (!structure_finalized_) {
-            throw std::runtime_error("Called before finalize_structure().");
-        }
+        require_current_structure("compute_full_residual_vector");
 
         if (!residual_valid_) {
             cached_residual_ = Eigen::VectorXd::Zero(num_residuals_);
         }
 
+        residual_valid_ = false; // until every factor has been evaluated
+
         compute_full_residual_vector(cached_residual_);
 
         residual_valid_ = true;
@@ -139,9 +150,7 @@ namespace factorama
 
     void FactorGraph::compute_full_residual_vector(Eigen::VectorXd& result)
     {
-        if (!structure_finalized_) {
-            throw std::runtime_error("Called before finalize_structure().");
-        }
+        require_current_structure("compute_full_residual_vector");
 
         if (result.size() != num_residuals_) {
             result.resize(num_residuals_);
@@ -158,14 +167,14 @@ namespace factorama
 
     Eigen::MatrixXd& FactorGraph::compute_full_jacobian_matrix()
     {
-        if (!structure_finalized_) {
-            throw std::runtime_error("Called 'compute_full_jacobian_matrix' before finalize_structure().");
-        }
+        require_current_structure("compute_full_jacobian_matrix");
 
         if (!jacobian_valid_) {
             cached_jacobian_ = Eigen::MatrixXd::Zero(num_residuals_, num_values_);
         }
 
+        jacobian_valid_ = false; // until every block has been written
+
         for (const auto& it : factor_placement_) {
             auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
@@ -227,18 +236,82 @@ namespace factorama
 
     void FactorGraph::compute_full_jacobian_and_residual()
     {
-        if (!structure_finalized_) {
-            throw std::runtime_error("Called 'compute_full_jacobian_and_residual' before finalize_structure().");
-        }
+        require_current_structure("compute_full_jacobian_and_residual");
 
         compute_full_jacobian_matrix();
         compute_full_residual_vector();
     }
 
+    void FactorGraph::validate_structure() const
+    {
+        int num_values = 0;
+        for (const auto& var : variables_vector_) {
+            num_values += var->is_constant() ? 0 : var->size();
+        }
+
+        int num_residuals = 0;
+        for (const auto& factor : factors_) {
+            num_residuals += factor->residual_size();
+            for (const auto& var : factor->variables()) {
+                if (var == nullptr) {
+                    // note: name() may dereference the null variable, so identify the factor by its ID
+                    throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) + ": variable was null");
+                }
+                if (!var->is_constant() && get_variable(var->id()) != var) {
+                    throw std::runtime_error("Variable placement not found for variable: " + var->name() +
+                                             ". Variable may not have been added to the factor graph.");
+                }
+            }
+        }
+
+        if (num_residuals < num_values) {
+            // The problem is guaranteed to be singular, so throw an error
+            throw std::runtime_error("num residuals - " + std::to_string(num_residuals) +
+                                     ", should be >= num_values - " + std::to_string(num_values));
+        }
+    }
+
+    bool FactorGraph::structure_current() const
+    {
+        if (!structure_finalized_) {
+            return false;
+        }
+        for (const auto& entry : structure_variables_) {
+            if (entry.second != (entry.first->is_constant() ? 0 : entry.first->size())) {
+                return false;
+            }
+        }
+        return true;
+    }
+
+    void FactorGraph::require_current_structure(const char *caller) const
+    {
+        if (!structure_finalized_) {
+            throw std::runtime_error(std::string(caller) + ": called before finalize_structure().");
+        }
+        if (!structure_current()) {
+            throw std::runtime_error(std::string(caller) +
+                                     ": variables changed since finalize_structure(), call it again first.");
+        }
+    }
+
+    void FactorGraph::invalidate_cached_results()
+    {
+        residual_valid_ = false;
+        jacobian_valid_ = false;
+        sparse_jacobian_valid_ = false;
+    }
+
     void FactorGraph::finalize_structure()
     {
+        // Check the structure before anything is modified, so that a refused call leaves the graph as it was
+        validate_structure();
+
+        structure_finalized_ = false;
+        invalidate_cached_results();
         variable_placement_.clear();
         factor_placement_.clear();
+        structure_variables_.clear();
 
         int col_offset = 0;
 
@@ -255,6 +328,7 @@ namespace factorama
                 placement.dim = var->size();
             }
             variable_placement_[var->id()] = placement;
+            structure_variables_.push_back({var.get(), placement.dim});
             col_offset += placement.dim;
         }
 
@@ -269,21 +343,14 @@ namespace factorama
             placement.residual_dim = factor->residual_size();
 
             for (const auto& var : factor->variables()) {
-                if (var == nullptr) {
-                    // note: name() may dereference the null variable, so identify the factor by its ID
-                    throw std::runtime_error("Factor with ID " + std::to_string(factor->id()) + ": variable was null");
-                }
-
                 if (var->is_constant()) {
+                    if (get_variable(var->id()) != var) {
+                        structure_variables_.push_back({var, 0}); // unregistered, allowed while it is constant
+                    }
                     continue;
                 }
 
-                bool var_placement_valid;
-                auto var_placement = variable_placement(var->id(), var_placement_valid);
-                if (!var_placement_valid) {
-                    throw std::runtime_error("Variable placement not found for variable: " + var->name() +
-                                             ". Variable may not have been added to the factor graph.");
-                }
+                const auto& var_placement = variable_placement_[var->id()];
 
                 placement.variable_column_indices.push_back(var_placement.index);
                 placement.variable_dims.push_back(var_placement.dim);
@@ -297,12 +364,6 @@ namespace factorama
         num_residuals_ = row_offset;
         num_values_ = col_offset;
 
-        if (num_residuals_ < num_values_) {
-            // The problem is guaranteed to be singular, so throw an error
-            throw std::runtime_error("num residuals - " + std::to_string(num_residuals_) +
-                                     ", should be >= num_values - " + std::to_string(num_values_));
-        }
-
         // First, figure out the number of elements in each column
         // std::vector<int> num_sparse_rows(num_values_, 0); // num sparse rows in each column
         Eigen::VectorXi num_sparse_rows = Eigen::VectorXi::Zero(num_values_);
@@ -375,9 +436,7 @@ namespace factorama
 
     Eigen::SparseMatrix<double>& FactorGraph::compute_sparse_jacobian_matrix()
     {
-        if (!structure_finalized_) {
-            throw std::runtime_error("Called 'compute_sparse_jacobian_matrix' before finalize_structure().");
-        }
+        require_current_structure("compute_sparse_jacobian_matrix");
 
         if (!sparse_jacobian_initialized_) {
             throw std::runtime_error(
@@ -541,9 +600,7 @@ namespace factorama
 
     bool FactorGraph::detailed_factor_test(double jacobian_tol, bool verbose)
     {
-        if (!structure_finalized_) {
-            throw std::runtime_error("detailed_factor_test: must call finalize_structure() first");
-        }
+        require_current_structure("detailed_factor_test");
 
         if (verbose) {
             std::cout << "\n=== DETAILED FACTOR TEST ===" << std::endl;
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 02b37ef..9ee33b9 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -132,7 +132,7 @@ namespace factorama
         // Safe public access to cached results
         const Eigen::MatrixXd& jacobian() const
         {
-            if (!jacobian_valid_) {
+            if (!jacobian_valid()) {
                 throw std::runtime_error("Jacobian not valid — call compute_full_jacobian_and_residual() first.");
             }
             return cached_jacobian_;
@@ -140,7 +140,7 @@ namespace factorama
 
         const Eigen::SparseMatrix<double>& sparse_jacobian() const
         {
-            if (!sparse_jacobian_valid_) {
+            if (!sparse_jacobian_valid_ || !structure_current()) {
                 throw std::runtime_error("Sparse Jacobian not valid — call compute_sparse_jacobian_matrix() first.");
             }
             return sparse_jacobian_;
@@ -148,14 +148,14 @@ namespace factorama
 
         const Eigen::VectorXd& residual() const
         {
-            if (!residual_valid_) {
+            if (!residual_valid()) {
                 throw std::runtime_error("Residual not valid — call compute_full_jacobian_and_residual() first.");
             }
             return cached_residual_;
         }
 
-        bool jacobian_valid() const { return jacobian_valid_; }
-        bool residual_valid() const { return residual_valid_; }
+        bool jacobian_valid() const { return jacobian_valid_ && structure_current(); }
+        bool residual_valid() const { return residual_valid_ && structure_current(); }
 
         // Type-safe variable lookup
         template <typename T>
@@ -251,7 +251,14 @@ namespace factorama
         // Misc
         bool verbose_ = false;
 
+        // Every variable the finalized structure depends on, with the number of columns it was given
+        std::vector<std::pair<const Variable *, int>> structure_variables_;
+
         // Helper functions
+        void validate_structure() const;
+        bool structure_current() const;
+        void require_current_structure(const char *caller) const;
+        void invalidate_cached_results();
         void copy_sparse_data_to_eigen_matrix();
     };
 
-- 
2.43.0


From 2d681b0764a6b61ff759b208e31f8b9961ed3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 04/27] fix: sum the Jacobian blocks of a variable a factor
 uses more than once

The dense matrix kept only the last block and the sparse one was corrupted;
blocks of the wrong count or size are refused.
---
 src/factorama/factor_graph.cpp | 81 +++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index e48bb61..eafbbc3 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -1,5 +1,6 @@
 #include "factorama/factor_graph.hpp"
 #include "factorama/numerical_jacobian.hpp"
+#include <algorithm>
 #include <stdexcept>
 #include <iostream>
 
@@ -169,9 +170,8 @@ namespace factorama
     {
         require_current_structure("compute_full_jacobian_matrix");
 
-        if (!jacobian_valid_) {
-            cached_jacobian_ = Eigen::MatrixXd::Zero(num_residuals_, num_values_);
-        }
+        // Blocks are summed below (a factor may use a variable more than once), so always start from zero
+        cached_jacobian_ = Eigen::MatrixXd::Zero(num_residuals_, num_values_);
 
         jacobian_valid_ = false; // until every block has been written
 
@@ -184,6 +184,10 @@ namespace factorama
             factor->compute_jacobians(jacobians);
             const auto& variables = factor->variables();
 
+            if (jacobians.size() != variables.size()) {
+                throw std::runtime_error("FactorGraph: Expected one Jacobian block per variable. factor " + factor->name());
+            }
+
             for (size_t i = 0; i < variables.size(); ++i) {
                 const auto& var = variables[i];
 
@@ -226,7 +230,7 @@ namespace factorama
                         ", actual: " + std::to_string(Ji.cols()) + "factor " + factor->name() + ", var " + var->name());
                 }
 
-                cached_jacobian_.block(row_offset, col_offset, Ji.rows(), Ji.cols()) = Ji;
+                cached_jacobian_.block(row_offset, col_offset, Ji.rows(), Ji.cols()) += Ji;
             }
         }
 
@@ -351,6 +355,10 @@ namespace factorama
                 }
 
                 const auto& var_placement = variable_placement_[var->id()];
+                auto& columns = placement.variable_column_indices;
+                if (std::find(columns.begin(), columns.end(), var_placement.index) != columns.end()) {
+                    continue; // the factor uses this variable more than once
+                }
 
                 placement.variable_column_indices.push_back(var_placement.index);
                 placement.variable_dims.push_back(var_placement.dim);
@@ -370,20 +378,13 @@ namespace factorama
         // for (const auto &fp : factor_placement_)
         for (size_t i = 0; i < factors_.size(); i++) {
             auto& fp = factor_placement_[factors_[i]->id()];
-            // const int row_base = fp.residual_index;
-            const int row_dim = fp.residual_dim;
-            for (auto& var : fp.factor->variables()) {
-                if (var->is_constant()) {
-                    continue;
-                }
-                auto& vp = variable_placement_[var->id()];
-
+            for (size_t j = 0; j < fp.variable_column_indices.size(); ++j) {
                 // for each column - add the num rows
-                int col_base = vp.index;
-                int col_dim = vp.dim;
+                int col_base = fp.variable_column_indices[j];
+                int col_dim = fp.variable_dims[j];
 
-                for (int i = col_base; i < col_base + col_dim; i++) {
-                    num_sparse_rows[i] += row_dim;
+                for (int col = col_base; col < col_base + col_dim; col++) {
+                    num_sparse_rows[col] += fp.residual_dim;
                 }
             }
         }
@@ -458,10 +459,18 @@ namespace factorama
             factor->compute_jacobians(jacobians);
             const auto& variables = factor->variables();
 
+            if (jacobians.size() != variables.size()) {
+                throw std::runtime_error("FactorGraph: Expected one Jacobian block per variable. factor " + factor->name());
+            }
+
             for (size_t i = 0; i < variables.size(); i++) {
                 const auto& var = variables[i];
                 const auto& Ji = jacobians[i];
 
+                if (var->is_constant()) {
+                    continue;
+                }
+
                 bool var_valid = false;
                 auto var_placement = variable_placement(var->id(), var_valid);
                 if (!var_valid) {
@@ -470,27 +479,29 @@ namespace factorama
                 }
                 int col_offset = var_placement.index;
 
-                // Iterate through each element of the Ji block and add non-zero s
-                for (int r = 0; r < Ji.rows(); ++r) {
-                    for (int c = 0; c < Ji.cols(); ++c) {
-                        double value = Ji(r, c);
-                        // int dense_row = row_offset + r;
-                        int dense_col = col_offset + c;
-                        int sparse_row = current_row_index[dense_col];
-                        // sparse_jacobian_.coeffRef(row_offset + r, col_offset + c) = value;
-                        // sparse_jacobian_.insert(row_offset + r, col_offset + c) = value;
-                        if (dense_col < 0 || dense_col >= int(sparse_jacobian_data_.size())) {
-                            throw std::runtime_error("column index " + std::to_string(dense_col) +
-                                                     " out of bounds for sparse jacobian data");
-                        }
+                if (Ji.rows() != factor_placement.residual_dim || Ji.cols() != var_placement.dim) {
+                    throw std::runtime_error("FactorGraph: Jacobian block size mismatch. factor " + factor->name() +
+                                             ", var " + var->name());
+                }
 
-                        if (sparse_row < 0 || sparse_row >= int(sparse_jacobian_data_[dense_col].size())) {
-                            throw std::runtime_error("sparse row index " + std::to_string(sparse_row) +
-                                                     " out of bounds for sparse jacobian data");
-                        }
+                // A variable that the factor uses again adds to the block written for its first use
+                const bool repeated = std::find(variables.begin(), variables.begin() + i, var) != variables.begin() + i;
 
-                        sparse_jacobian_data_[dense_col][sparse_row] = value;
-                        current_row_index[dense_col]++;
+                for (int c = 0; c < Ji.cols(); ++c) {
+                    int dense_col = col_offset + c;
+                    if (!repeated) {
+                        current_row_index[dense_col] += Ji.rows();
+                    }
+                    int first_row = current_row_index[dense_col] - Ji.rows();
+
+                    if (first_row < 0 || current_row_index[dense_col] > int(sparse_jacobian_data_[dense_col].size())) {
+                        throw std::runtime_error("sparse row index " + std::to_string(first_row) +
+                                                 " out of bounds for sparse jacobian data");
+                    }
+
+                    for (int r = 0; r < Ji.rows(); ++r) {
+                        double& value = sparse_jacobian_data_[dense_col][first_row + r];
+                        value = repeated ? value + Ji(r, c) : Ji(r, c);
                     }
                 }
             }
-- 
2.43.0


From b02459de0e543adf7e55afd09a73a59bd2742719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 05/27] fix: handle graphs in which every variable is constant

The second sparse evaluation threw, and optimization, covariance estimation
and print_jacobian_and_residual read the first entry of empty vectors.
---
 src/factorama/factor_graph.cpp     | 12 +++++++++---
 src/factorama/sparse_optimizer.cpp |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index eafbbc3..1321c70 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -596,9 +596,11 @@ namespace factorama
             }
         }
 
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
-        std::cout << "Jacobian rank: " << svd.rank() << "\n";
-        std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        if (cached_jacobian_.size() > 0) { // empty when every variable is constant
+            Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
+            std::cout << "Jacobian rank: " << svd.rank() << "\n";
+            std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        }
 
         std::cout << "Residual norm: " << cached_residual_.norm() << "\n";
 
@@ -749,6 +751,10 @@ namespace factorama
         int running_index = 0;
         int total_nonzeros = sparse_jacobian_.nonZeros();
 
+        if (total_nonzeros == 0) {
+            return; // e.g. every variable is constant
+        }
+
         // Validate preconditions
         if (!values) {
             throw std::runtime_error("FactorGraph: Sparse matrix valuePtr() returned null");
diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..2309082 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -184,7 +184,8 @@ namespace factorama
         auto start_time = std::chrono::high_resolution_clock::now();
 
         // Main optimization loop (following SPARSE METHOD 2 pattern)
-        for (size_t i = 0; i < settings_.max_num_iterations; ++i) {
+        // (with every variable constant there is nothing to solve for)
+        for (size_t i = 0; i < settings_.max_num_iterations && graph_->num_values() > 0; ++i) {
             bool verbose_iteration = settings_.verbose && (i < 2 || i == settings_.max_num_iterations - 1);
 
             if (verbose_iteration) {
@@ -554,6 +555,10 @@ namespace factorama
             return;
         }
 
+        if (cached_hessian_.cols() == 0) {
+            return; // every variable is constant
+        }
+
         // Check for singular/ill-conditioned matrix via diagonal elements
         Eigen::VectorXd D = sparse_solver_.vectorD().cwiseAbs();
         double min_diag = D.minCoeff();
-- 
2.43.0


From f65e0b158005b20a23d41a83d1c552beda96e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 06/27] fix: never raise the LM damping beyond max_lambda when
 a factorization or solve fails

---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 2309082..30237e5 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -358,6 +358,7 @@ namespace factorama
             if (sparse_solver_.info() != Eigen::Success) {
                 // If factorization fails, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Factorization failed, increasing lambda to " << current_stats_.damping_parameter
@@ -374,6 +375,7 @@ namespace factorama
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
                 // Hessian is ill-conditioned, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
@@ -386,6 +388,7 @@ namespace factorama
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Solve failed, increasing lambda to " << current_stats_.damping_parameter << "\n";
-- 
2.43.0


From 42abb336171582a8b4c82ae55166fbe3bd9677c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 07/27] fix: do not rewrite constant variables when an LM step
 is rejected

---
 src/factorama/sparse_optimizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 30237e5..82edf41 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -448,7 +448,9 @@ namespace factorama
                 update_vars_stopwatch_.start();
                 // Reject step: restore original values and increase damping
                 for (size_t i = 0; i < variables.size(); ++i) {
-                    variables[i]->set_value_from_vector(original_values[i]);
+                    if (!variables[i]->is_constant()) {
+                        variables[i]->set_value_from_vector(original_values[i]);
+                    }
                 }
 
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
-- 
2.43.0


From 80daba723e5d7b33999c8136d5e86316352473e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 08/27] fix: estimate covariances from the undamped information
 at the final estimate

A repeated optimize() kept the earlier Hessian (and the damped system left in
the shared solver), the Jacobian used preceded the last step, a refinalized
graph was indexed with outdated dimensions, and singular information was
reported as valid.
---
 src/factorama/factor_graph.cpp     |  1 +
 src/factorama/factor_graph.hpp     |  8 +++++-
 src/factorama/sparse_optimizer.cpp | 44 ++++++++++++++++++------------
 src/factorama/sparse_optimizer.hpp |  1 +
 4 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 1321c70..4bf28e3 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -432,6 +432,7 @@ namespace factorama
 
         sparse_jacobian_components_ = std::vector<std::vector<Eigen::MatrixXd>>(factors_.size());
 
+        structure_revision_++;
         structure_finalized_ = true;
     }
 
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 9ee33b9..2a6ec3d 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -180,6 +180,12 @@ namespace factorama
         int num_values() const { return num_values_; }
         int num_residuals() const { return num_residuals_; }
 
+        /// True while the variables still match what finalize_structure() saw
+        bool structure_current() const;
+
+        /// Incremented whenever the structure is (re)finalized
+        int structure_revision() const { return structure_revision_; }
+
         void set_verbose(bool verbose) { verbose_ = verbose; }
 
         VariablePlacement variable_placement(int id, bool& valid_out) const
@@ -224,6 +230,7 @@ namespace factorama
 
         // Structure bookkeeping
         bool structure_finalized_ = false;
+        int structure_revision_ = 0;
         std::unordered_map<int, VariablePlacement> variable_placement_;
         std::unordered_map<int, FactorPlacement> factor_placement_;
 
@@ -256,7 +263,6 @@ namespace factorama
 
         // Helper functions
         void validate_structure() const;
-        bool structure_current() const;
         void require_current_structure(const char *caller) const;
         void invalidate_cached_results();
         void copy_sparse_data_to_eigen_matrix();
diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 82edf41..638b1b1 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <chrono>
+#include <limits>
 
 namespace factorama
 {
@@ -148,6 +149,10 @@ namespace factorama
         // Note: We assume finalize_structure() was called externally
         // graph_->finalize_structure(); // Uncomment if needed
 
+        // Covariances of an earlier run do not describe this one
+        optimization_complete_ = false;
+        cached_hessian_valid_for_covariance_est_ = false;
+
         // Initialize stats
         current_stats_ = OptimizerStats{};
         current_stats_.valid = true;
@@ -533,7 +538,8 @@ namespace factorama
     {
         // Assume the graph has already been optimized - estimate the covariance of each variable
 
-        if (cached_hessian_valid_for_covariance_est_) {
+        if (cached_hessian_valid_for_covariance_est_ &&
+            cached_hessian_revision_ == graph_->structure_revision()) {
             // early end, if it was already valid
             return;
         }
@@ -543,10 +549,13 @@ namespace factorama
             return;
         }
 
+        cached_hessian_valid_for_covariance_est_ = false;
+
         const auto t_start = std::chrono::steady_clock::now();
 
-        // Step 1: Get the sparse jacobian
-        const Eigen::SparseMatrix<double>& J = graph_->sparse_jacobian();
+        // Step 1: Get the sparse jacobian at the final estimate (the last one the optimizer evaluated precedes the
+        // last step)
+        const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
 
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
@@ -564,21 +573,19 @@ namespace factorama
             return; // every variable is constant
         }
 
-        // Check for singular/ill-conditioned matrix via diagonal elements
-        Eigen::VectorXd D = sparse_solver_.vectorD().cwiseAbs();
-        double min_diag = D.minCoeff();
-        double max_diag = D.maxCoeff();
-        double cond_estimate = max_diag / min_diag;
+        // A pivot that vanishes, up to rounding, against its own diagonal element means that the matrix is singular
+        const Eigen::VectorXd pivots = sparse_solver_.vectorD();
+        const Eigen::VectorXd diagonal = sparse_solver_.permutationP() * Eigen::VectorXd(cached_hessian_.diagonal());
+        const double pivot_tol = 10.0 * double(pivots.size()) * std::numeric_limits<double>::epsilon();
 
-        if (min_diag < 1e-14 || cond_estimate > 1e12) {
+        if (!(pivots.array() > pivot_tol * diagonal.array()).all()) {
             if (settings_.verbose) {
-                std::cerr << "[SparseOptimizer] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
-                          << " (min diag=" << min_diag << ", cond est=" << cond_estimate
-                          << ") - covariance estimation may be unreliable.\n";
+                std::cerr << "[SparseOptimizer] Hessian is singular - covariances cannot be estimated.\n";
             }
-            // Note: We still allow covariance estimation to proceed, but warn the user
+            return;
         }
 
+        cached_hessian_revision_ = graph_->structure_revision();
         cached_hessian_valid_for_covariance_est_ = true;
 
         if (settings_.verbose) {
@@ -616,7 +623,8 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
-        if (!cached_hessian_valid_for_covariance_est_ || cached_hessian_.rows() == 0 || cached_hessian_.cols() == 0) {
+        if (!cached_hessian_valid_for_covariance_est_ || cached_hessian_.rows() == 0 || cached_hessian_.cols() == 0 ||
+            !graph_->structure_current() || cached_hessian_revision_ != graph_->structure_revision()) {
             if (settings_.verbose) {
                 std::cerr << "cached hessian was invalid" << std::endl;
             }
@@ -628,7 +636,7 @@ namespace factorama
         bool var_valid;
         auto placement = graph_->variable_placement(var_id, var_valid);
 
-        if (!var_valid) {
+        if (!var_valid || placement.variable != variable) {
             if (settings_.verbose) {
                 std::cerr << "variable placement not found" << std::endl;
             }
@@ -674,10 +682,12 @@ namespace factorama
 
     void SparseOptimizer::print_all_covariances()
     {
-        if (!cached_hessian_valid_for_covariance_est_) {
-            prepare_to_estimate_covariances();
+        if (!graph_) {
+            throw std::runtime_error("[SparseOptimizer] No factor graph set.");
         }
 
+        prepare_to_estimate_covariances();
+
         std::cout << "\n\nPrinting out all covariances for the factor graph" << std::endl;
 
         for (auto var : graph_->get_all_variables()) {
diff --git a/src/factorama/sparse_optimizer.hpp b/src/factorama/sparse_optimizer.hpp
index 93dee55..9541b6e 100644
--- a/src/factorama/sparse_optimizer.hpp
+++ b/src/factorama/sparse_optimizer.hpp
@@ -160,6 +160,7 @@ namespace factorama
         // Cached Hessian (for covariance estimates)
         bool cached_hessian_valid_for_covariance_est_ = false;
         Eigen::SparseMatrix<double> cached_hessian_;
+        int cached_hessian_revision_ = -1; // structure revision of the graph it was computed for
 
         // Cached Residuals
         Eigen::VectorXd residual1_;
-- 
2.43.0


From 36ca6d433036336c1fb9d7b640184b69f07aace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 09/27] fix: reset the Jacobian stopwatch at the start of an
 optimization

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 638b1b1..63cb1dd 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -160,7 +160,7 @@ namespace factorama
         current_stats_.current_iteration = 0;
 
         residual_stopwatch_.reset();
-        residual_stopwatch_.reset();
+        jacobian_stopwatch_.reset();
         hessian_stopwatch_.reset();
         solve_stopwatch_.reset();
         update_vars_stopwatch_.reset();
-- 
2.43.0


From bd4ad7724db68c949b4047d2b3eae898e2b68e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 10/27] fix: report a truthful status for non-finite, growing
 and interrupted optimizations

A step that could not be completed left a partially applied trial estimate;
non-finite runs and runs above their starting cost were reported as valid or
successful; LM started at its optimum was reported as failed.
---
 src/factorama/sparse_optimizer.cpp | 68 +++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 63cb1dd..9bd66bf 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <chrono>
+#include <cmath>
 #include <limits>
 
 namespace factorama
@@ -86,6 +87,10 @@ namespace factorama
 
         dx *= settings_.learning_rate;
 
+        if (!dx.allFinite()) {
+            throw std::runtime_error("Gauss-Newton step is not finite");
+        }
+
         // Step 4: Apply increment (todo - push this into the factor graph)
         update_vars_stopwatch_.start();
         const auto& variables = graph_->get_all_variables();
@@ -108,6 +113,9 @@ namespace factorama
 
         // Step 5: Compute updated residual and update statistics
         graph_->compute_full_residual_vector(residual2_);
+        if (!std::isfinite(residual2_.squaredNorm())) {
+            throw std::runtime_error("Residual is not finite after Gauss-Newton step");
+        }
         current_stats_.delta_norm = dx.norm();
         current_stats_.chi2 = residual2_.squaredNorm();
         current_stats_.residual_norm = residual2_.norm();
@@ -155,9 +163,7 @@ namespace factorama
 
         // Initialize stats
         current_stats_ = OptimizerStats{};
-        current_stats_.valid = true;
-        current_stats_.status = OptimizerStatus::RUNNING;
-        current_stats_.current_iteration = 0;
+        initial_stats_ = current_stats_;
 
         residual_stopwatch_.reset();
         jacobian_stopwatch_.reset();
@@ -169,6 +175,7 @@ namespace factorama
         const Eigen::VectorXd initial_residual = graph_->compute_full_residual_vector();
         current_stats_.residual_norm = initial_residual.norm();
         current_stats_.chi2 = initial_residual.squaredNorm();
+        current_stats_.valid = true;
 
         initial_stats_ = current_stats_;
 
@@ -200,6 +207,26 @@ namespace factorama
             // Store previous stats for convergence checking
             auto prev_stats = current_stats_;
 
+            // Remember the estimate, to return to it if the step cannot be completed
+            std::vector<Eigen::VectorXd> prev_values;
+            for (const auto& var : graph_->get_all_variables()) {
+                prev_values.push_back(var->value());
+            }
+
+            auto abandon_step = [&]() {
+                const auto& variables = graph_->get_all_variables();
+                for (size_t v = 0; v < variables.size(); ++v) {
+                    if (!variables[v]->is_constant() && variables[v]->value() != prev_values[v]) {
+                        variables[v]->set_value_from_vector(prev_values[v]);
+                    }
+                }
+                const double damping_parameter = current_stats_.damping_parameter;
+                current_stats_ = prev_stats;
+                current_stats_.damping_parameter = damping_parameter;
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+            };
+
             // Perform one optimization step based on selected method
             try {
                 if (settings_.method == OptimizerMethod::GaussNewton) {
@@ -209,8 +236,11 @@ namespace factorama
                 }
             } catch (const std::exception& e) {
                 std::cerr << "[SparseOptimizer] Error in iteration " << i << ": " << e.what() << std::endl;
-                current_stats_.valid = false;
-                current_stats_.status = OptimizerStatus::FAILED;
+                abandon_step();
+                break;
+            } catch (...) {
+                std::cerr << "[SparseOptimizer] Unknown error in iteration " << i << std::endl;
+                abandon_step();
                 break;
             }
 
@@ -224,13 +254,23 @@ namespace factorama
                 break;
             }
 
+            // Levenberg-Marquardt could not improve any further
+            if (current_stats_.status != OptimizerStatus::RUNNING) {
+                break;
+            }
+
             // Check convergence based on step norm
             if (current_stats_.delta_norm < settings_.step_tolerance) {
                 if (settings_.verbose) {
                     std::cout << "[SparseOptimizer] Converged: Step norm (" << current_stats_.delta_norm
                               << ") below tolerance (" << settings_.step_tolerance << ")\n";
                 }
-                current_stats_.status = OptimizerStatus::SUCCESS;
+                if (current_stats_.residual_norm > initial_stats_.residual_norm + settings_.residual_tolerance) {
+                    current_stats_.valid = false;
+                    current_stats_.status = OptimizerStatus::DIVERGED;
+                } else {
+                    current_stats_.status = OptimizerStatus::SUCCESS;
+                }
                 break;
             }
 
@@ -245,6 +285,7 @@ namespace factorama
                 }
                 // Check if we've diverged beyond the initial state
                 if (current_stats_.residual_norm >= initial_stats_.residual_norm) {
+                    current_stats_.valid = false;
                     current_stats_.status = OptimizerStatus::DIVERGED;
                 } else {
                     current_stats_.status = OptimizerStatus::SUCCESS;
@@ -276,7 +317,12 @@ namespace factorama
 
         // Set final status if still RUNNING (max iterations reached)
         if (current_stats_.status == OptimizerStatus::RUNNING) {
-            current_stats_.status = OptimizerStatus::SUCCESS;
+            if (std::isfinite(current_stats_.chi2)) {
+                current_stats_.status = OptimizerStatus::SUCCESS;
+            } else {
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+            }
         }
 
         if (settings_.verbose) {
@@ -339,6 +385,7 @@ namespace factorama
 
         bool step_accepted = false;
         Eigen::VectorXd dx;
+        double first_step_norm = -1.0; // norm of the first step tried in this iteration
         double new_cost = current_cost;
         int lm_attempts = 0;
         const int max_lm_attempts = 5;
@@ -403,6 +450,9 @@ namespace factorama
             solve_stopwatch_.stop();
 
             dx *= settings_.learning_rate;
+            if (first_step_norm < 0.0) {
+                first_step_norm = dx.norm();
+            }
 
             // Step 4: Apply increment to variables (temporarily)
             update_vars_stopwatch_.start();
@@ -488,6 +538,10 @@ namespace factorama
                 current_stats_.valid = true;
                 current_stats_.status = OptimizerStatus::SUCCESS;
 
+            } else if (first_step_norm >= 0.0 && first_step_norm < settings_.step_tolerance) {
+                // started at the optimum: there was no step worth taking
+                current_stats_.status = OptimizerStatus::SUCCESS;
+
             } else {
                 current_stats_.valid = false;
                 current_stats_.status = (current_stats_.damping_parameter >= settings_.max_lambda)
-- 
2.43.0


From 217d264524c4c583ee43388e1b495ce64c84499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 11/27] fix: GenericPriorFactor returned two Jacobian blocks
 for a constant variable

---
 src/factorama/generic_prior_factor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..6ab81d6 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,8 +62,7 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
-                jacobians[0] = Eigen::MatrixXd();
+                jacobians[0] = Eigen::MatrixXd(); // Empty Jacobian if variable is constant
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
                     jacobians[0].resize(size_, size_);
-- 
2.43.0


From 1059324c7c57b89f8382cde8fbf3dd05b2bd18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 12/27] fix: CoordinateTransformFactor wrote past a reused
 Jacobian container

---
 src/factorama/coordinate_transform_factor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..875ca08 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -111,12 +111,12 @@ namespace factorama
             double scale = scale_AB_->value()[0];
             const Eigen::Vector3d& lm_B = lm_B_->value();
 
-            // Ensure jacobians vector has correct size for 2 variables
+            // Ensure jacobians vector has correct size for 5 variables
             if (jacobians_out.size() == 0) {
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
-- 
2.43.0


From a70a40d542e7d0726d27ca3a1b867ee40bedf188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 13/27] fix: BearingProjectionFactor2D Jacobians were NaN for a
 landmark at the camera position

---
 src/factorama/bearing_projection_factor_2d.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factorama/bearing_projection_factor_2d.cpp b/src/factorama/bearing_projection_factor_2d.cpp
index 7b8cc3e..5073160 100644
--- a/src/factorama/bearing_projection_factor_2d.cpp
+++ b/src/factorama/bearing_projection_factor_2d.cpp
@@ -111,13 +111,14 @@ namespace factorama
         // (unit vector)
         Eigen::Vector3d pos_C = dcm_CW * (pos_W - pos_W_cam);
         double pos_C_norm = pos_C.norm();
-        Eigen::Vector3d bearing_C = pos_C / pos_C_norm;
+        Eigen::Vector3d bearing_C = pos_C.normalized();
 
         // Compute along-ray depth
         double depth = bearing_C_observed_.dot(bearing_C);
 
         // Handle edge case: if depth too small, zero out Jacobians to avoid reversing
-        if (depth <= reverse_depth_tolerance_) {
+        // (or if the landmark coincides with the camera, where the bearing is undefined)
+        if (depth <= reverse_depth_tolerance_ || pos_C_norm <= 0.0) {
             if (pose_->is_constant()) {
                 jacobians[0] = Eigen::MatrixXd();
             } else {
-- 
2.43.0


From 41f62066c703ce530fdfa758d95c971cc75364cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 14/27] fix: PlaneFactor with distance scaling used the
 opposite sign for the plane distance

---
 src/factorama/plane_factor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index f7e4000..65108f6 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -55,7 +55,7 @@ namespace factorama
             // Extract values
             Eigen::Vector3d p = point_var_->value();       // 3D point
             Eigen::Vector3d n = plane_var_->unit_vector(); // unit normal
-            double d = plane_var_->distance_from_origin(); // plane offset: n·x = d
+            double d = plane_var_->distance_from_origin(); // plane offset: n·x + d = 0
 
             // Range term
             Eigen::Vector3d diff = p - dist_scaling_p0_;
@@ -63,7 +63,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             Eigen::VectorXd res(1);
             res(0) = weight_ * (dist / scale);
@@ -91,7 +91,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
             result(0) = weight_ * (dist / scale);
         }
     }
@@ -158,7 +158,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             // Common partials
             Eigen::Vector3d dscale_dp = Eigen::Vector3d::Zero();
@@ -193,7 +193,7 @@ namespace factorama
             //
             // => dr/dn_tangent = (1/scale) * (p_tangent)^T
             //
-            // dr/dd = -1/scale
+            // dr/dd = 1/scale
 
             if (plane_var_->is_constant()) {
                 jacobians[1] = Eigen::MatrixXd();
@@ -207,7 +207,7 @@ namespace factorama
                 Eigen::Vector3d p_tangent = p - p_dot_n * n;
 
                 jacobians[1].block<1, 3>(0, 0) = weight_ * (p_tangent.transpose() / scale);
-                jacobians[1](0, 3) = weight_ * (-1.0 / scale);
+                jacobians[1](0, 3) = weight_ * (1.0 / scale);
             }
         }
     }
-- 
2.43.0


From db834463a8bf3fa2316487c1f113a33b8248019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 15/27] fix: HuberKernel Jacobians were not the derivative of
 its residuals

---
 src/factorama/kernels.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index c95bf77..693b2df 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <Eigen/Dense>
+#include <cmath>
 #include <vector>
 
 namespace factorama
@@ -54,11 +55,14 @@ namespace factorama
                 return;
             }
 
-            // Chain rule: w * J_r + r * (w_deriv) * (r^T * J_r) / ||r||
+            // Chain rule: w * J_r + r * (dw/d||r||) * (r^T * J_r) / ||r||
             double w = std::sqrt(delta_ / r_norm);
-            double w_deriv = -0.5 * delta_ / (r_norm * r_norm * r_norm);
+            double w_deriv = -0.5 * w / (r_norm * r_norm); // (dw/d||r||) / ||r||
 
             for (auto& jac : jacobians) {
+                if (jac.size() == 0) {
+                    continue; // constant variable
+                }
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
             }
         }
-- 
2.43.0


From e070054f9748f0b8f6bdd38d41f7df14d5ff1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 16/27] fix: measure the stopwatch with the monotonic clock

---
 src/factorama/stopwatch.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/stopwatch.hpp b/src/factorama/stopwatch.hpp
index 814b188..8b5f940 100644
--- a/src/factorama/stopwatch.hpp
+++ b/src/factorama/stopwatch.hpp
@@ -18,7 +18,7 @@ namespace factorama
                 return;
             }
             is_running_ = true;
-            start_time_ = std::chrono::high_resolution_clock::now();
+            start_time_ = std::chrono::steady_clock::now();
         }
 
         void stop()
@@ -26,7 +26,7 @@ namespace factorama
             if (!is_running_) {
                 return;
             }
-            auto end_time = std::chrono::high_resolution_clock::now();
+            auto end_time = std::chrono::steady_clock::now();
             std::chrono::duration<double> duration = end_time - start_time_;
             accumulated_time_ += duration.count();
             is_running_ = false;
@@ -42,7 +42,7 @@ namespace factorama
         {
             double total = accumulated_time_;
             if (is_running_) {
-                auto current_time = std::chrono::high_resolution_clock::now();
+                auto current_time = std::chrono::steady_clock::now();
                 std::chrono::duration<double> duration = current_time - start_time_;
                 total += duration.count();
             }
@@ -52,6 +52,6 @@ namespace factorama
     private:
         bool is_running_;
         double accumulated_time_;
-        std::chrono::time_point<std::chrono::high_resolution_clock> start_time_;
+        std::chrono::time_point<std::chrono::steady_clock> start_time_;
     };
 } // namespace factorama
-- 
2.43.0


From 3375d009ee5870ca9bed40fd2d71618d81f7fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 17/27] fix: refuse value vectors and increments of the wrong
 size in every variable type

---
 src/factorama/inverse_range_variable.cpp | 3 +++
 src/factorama/landmark_variable.hpp      | 8 +++++++-
 src/factorama/pose_variable.cpp          | 3 +++
 src/factorama/rotation_variable.hpp      | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..decbabf 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..19c756a 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..403569e 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..3f0ed42 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From 44a54cd0cb8575f4141ed4a188ee03431c369d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 18/27] fix: detailed_factor_test passed Jacobians that are not
 finite

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 4bf28e3..adec439 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -700,7 +700,7 @@ namespace factorama
                 // sections of a jacobian may be scaled differently) but it helps.
                 double scaled_jacobian_tol = std::max(1e-2, max_jacobian_val * jacobian_tol);
 
-                if (max_error >= scaled_jacobian_tol) {
+                if (!diff.allFinite() || !(max_error < scaled_jacobian_tol)) {
                     if (verbose) {
                         if (factor_passed) {
                             std::cout << "\n--- Factor " << factor_idx << " (" << factor->name()
-- 
2.43.0


From ad2c6515f2f4c5757a50465f34d1d0b422b425d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 19/27] fix: refuse a zero plane normal instead of keeping a
 plane without a direction

---
 src/factorama/plane_variable.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/factorama/plane_variable.hpp b/src/factorama/plane_variable.hpp
index a08eede..fd66dea 100644
--- a/src/factorama/plane_variable.hpp
+++ b/src/factorama/plane_variable.hpp
@@ -3,6 +3,7 @@
 #include "factorama/base_types.hpp"
 #include <Eigen/Dense>
 #include <iostream>
+#include <stdexcept>
 
 namespace factorama
 {
@@ -36,7 +37,9 @@ namespace factorama
             , value_(4)
         {
             id_ = id;
-            assert(normal_vector.squaredNorm() > 0.0 && "normal vector must be nonzero");
+            if (!(unit_vector_.norm() > 0.0)) {
+                throw std::runtime_error("PlaneVariable: normal vector must be nonzero");
+            }
             value_ << unit_vector_, distance_from_origin_;
         }
 
@@ -51,7 +54,11 @@ namespace factorama
             if (x.size() != 4) {
                 throw std::runtime_error("PlaneVariable::set_value_from_vector(): expected size 4");
             }
-            unit_vector_ = x.head<3>().normalized();
+            const Eigen::Vector3d unit_vector = x.head<3>().normalized();
+            if (!(unit_vector.norm() > 0.0)) {
+                throw std::runtime_error("PlaneVariable::set_value_from_vector(): normal vector must be nonzero");
+            }
+            unit_vector_ = unit_vector;
             distance_from_origin_ = x(3);
             value_ << unit_vector_, distance_from_origin_;
         }
@@ -62,10 +69,12 @@ namespace factorama
                 throw std::runtime_error("PlaneVariable::apply_increment(): size mismatch");
             }
             // Apply increment to unit vector and distance, then renormalize
-            unit_vector_ += dx.head<3>();
+            const Eigen::Vector3d unit_vector = (unit_vector_ + dx.head<3>()).normalized();
+            if (!(unit_vector.norm() > 0.0)) {
+                throw std::runtime_error("PlaneVariable::apply_increment(): normal vector must be nonzero");
+            }
+            unit_vector_ = unit_vector;
             distance_from_origin_ += dx(3);
-            assert(unit_vector_.squaredNorm() > 0.0 && "normal vector must be nonzero after increment");
-            unit_vector_.normalize();
             value_ << unit_vector_, distance_from_origin_;
         }
 
-- 
2.43.0


From 567beb74700a5656dd4c456137d70f1a60b8b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 20/27] fix: numerical differentiation left a variable
 perturbed when the factor raised an error

---
 src/factorama/numerical_jacobian.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/factorama/numerical_jacobian.hpp b/src/factorama/numerical_jacobian.hpp
index 524e913..402c5f4 100644
--- a/src/factorama/numerical_jacobian.hpp
+++ b/src/factorama/numerical_jacobian.hpp
@@ -58,16 +58,22 @@ namespace factorama
                     Eigen::VectorXd dx = Eigen::VectorXd::Zero(var_dim);
                     dx[k] = epsilon;
 
-                    // Apply +epsilon
-                    var->apply_increment(dx);
-                    Eigen::VectorXd res_plus = factor.compute_residual();
+                    Eigen::VectorXd res_plus, res_minus;
+                    try {
+                        // Apply +epsilon
+                        var->apply_increment(dx);
+                        res_plus = factor.compute_residual();
 
-                    // Reset
-                    var->set_value_from_vector(x0);
+                        // Reset
+                        var->set_value_from_vector(x0);
 
-                    // Apply -epsilon
-                    var->apply_increment(-dx);
-                    Eigen::VectorXd res_minus = factor.compute_residual();
+                        // Apply -epsilon
+                        var->apply_increment(-dx);
+                        res_minus = factor.compute_residual();
+                    } catch (...) {
+                        var->set_value_from_vector(x0);
+                        throw;
+                    }
 
                     // Reset again
                     var->set_value_from_vector(x0);
-- 
2.43.0


From bb69f0110d4ef0f98624f68e291115e2fda946d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 21/27] fix: undo a value vector or increment that a variable
 refuses part way

---
 src/factorama/factor_graph.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index adec439..17e8195 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -6,6 +6,35 @@
 
 namespace factorama
 {
+    namespace
+    {
+        // Restores every variable unless dismissed, for updates that a variable refuses part way
+        struct ValueRollback
+        {
+            explicit ValueRollback(const std::vector<std::shared_ptr<Variable>>& variables)
+                : variables_(variables)
+            {
+                for (const auto& var : variables_) {
+                    values_.push_back(var->value());
+                }
+            }
+
+            ~ValueRollback()
+            {
+                for (size_t i = 0; i < values_.size(); ++i) {
+                    if (!variables_[i]->is_constant() && variables_[i]->value() != values_[i]) {
+                        variables_[i]->set_value_from_vector(values_[i]);
+                    }
+                }
+            }
+
+            void dismiss() { values_.clear(); }
+
+            const std::vector<std::shared_ptr<Variable>>& variables_;
+            std::vector<Eigen::VectorXd> values_;
+        };
+    } // namespace
+
     void FactorGraph::add_variable(const std::shared_ptr<Variable>& variable)
     {
         if (!variable) {
@@ -91,6 +120,7 @@ namespace factorama
                                      ") does not match expected size (" + std::to_string(num_values_) + ")");
         }
 
+        ValueRollback rollback(variables_vector_);
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
@@ -98,6 +128,7 @@ namespace factorama
                 offset += var->size();
             }
         }
+        rollback.dismiss();
     }
 
     void FactorGraph::apply_increment(const Eigen::VectorXd& dx)
@@ -109,6 +140,7 @@ namespace factorama
                                      ") does not match expected size (" + std::to_string(num_values_) + ")");
         }
 
+        ValueRollback rollback(variables_vector_);
         const auto& variables = get_all_variables();
         for (const auto& var : variables) {
             if (var->is_constant()) {
@@ -130,6 +162,7 @@ namespace factorama
             const Eigen::VectorXd local_dx = dx.segment(placement.index, placement.dim);
             var->apply_increment(local_dx);
         }
+        rollback.dismiss();
     }
 
     Eigen::VectorXd& FactorGraph::compute_full_residual_vector()
-- 
2.43.0


From eba7eaccc03bfe04f5ef4ffc65e32fd26ec9c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 22/27] fix: Python objects and arrays could outlive the memory
 they refer to

---
 .../python/factorama/_factorama.cpp           | 110 +++++++++++-------
 1 file changed, 70 insertions(+), 40 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index fc0c348..cc2e1b9 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -81,7 +81,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
         .def("id", &factorama::Variable::id, DOC(factorama, Variable, id))
         .def("size", &factorama::Variable::size)
-        .def("value", &factorama::Variable::value, py::return_value_policy::reference)
+        .def("value", &factorama::Variable::value, py::return_value_policy::copy)
         .def("set_value_from_vector", &factorama::Variable::set_value_from_vector)
         .def("apply_increment", &factorama::Variable::apply_increment)
         .def("type", &factorama::Variable::type)
@@ -94,7 +94,8 @@ PYBIND11_MODULE(_factorama, m) {
         .def("id", &factorama::Factor::id)
         .def("residual_size", &factorama::Factor::residual_size)
         .def("compute_residual", py::overload_cast<>(&factorama::Factor::compute_residual, py::const_))
-        .def("variables", &factorama::Factor::variables)
+        // The factor keeps its variables alive (see the constructors below), so these are never freed here
+        .def("variables", &factorama::Factor::variables, py::return_value_policy::reference_internal)
         .def("name", &factorama::Factor::name)
         .def("type", &factorama::Factor::type);
 
@@ -125,16 +126,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Matrix3d&>(),
              "Create a RotationVariable with DCM",
              py::arg("id"), py::arg("dcm_AB"))
-        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference)
-        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference);
+        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::copy)
+        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::copy);
 
     py::class_<factorama::InverseRangeVariable, std::shared_ptr<factorama::InverseRangeVariable>, factorama::Variable>(m, "InverseRangeVariable")
         .def(py::init<int, const Eigen::Vector3d&, const Eigen::Vector3d&, double>(),
              "Create an InverseRangeVariable",
              py::arg("id"), py::arg("origin_pos_W"), py::arg("bearing_W"), py::arg("initial_range"))
         .def("pos_W", &factorama::InverseRangeVariable::pos_W)
-        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference)
-        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference)
+        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::copy)
+        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::copy)
         .def("inverse_range", &factorama::InverseRangeVariable::inverse_range)
         .def_readwrite("minimum_inverse_range", &factorama::InverseRangeVariable::minimum_inverse_range_)
         .def_readwrite("maximum_inverse_range", &factorama::InverseRangeVariable::maximum_inverse_range_);
@@ -143,7 +144,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Vector3d&, double>(),
              "Create a PlaneVariable with normal vector and distance",
              py::arg("id"), py::arg("normal_vector"), py::arg("distance"))
-        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference)
+        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::copy)
         .def("distance_from_origin", &factorama::PlaneVariable::distance_from_origin)
         .def("distance_from_point", &factorama::PlaneVariable::distance_from_point);
 
@@ -162,7 +163,8 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*,
                       const Eigen::Vector3d&, double>(),
              "Create a BearingObservationFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
 
@@ -171,84 +173,99 @@ PYBIND11_MODULE(_factorama, m) {
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              "Create a GenericPriorFactor",
-             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
+             py::keep_alive<1, 3>(),
+             py::arg("id"), py::arg("variable").none(false), py::arg("prior_value"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              "Create an InverseRangeBearingFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("inverse_range_var").none(false), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
-        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
+        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::copy);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              "Create a GenericBetweenFactor",
-             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
+             py::arg("id"), py::arg("var_a").none(false), py::arg("var_b").none(false), py::arg("measured_diff").none(false), py::arg("sigma") = 1.0);
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              "Create a LinearVelocityFactor",
-             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
+             py::arg("id"), py::arg("var_1").none(false), py::arg("var_2").none(false), py::arg("velocity_variable").none(false), py::arg("dt"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              "Create a PosePositionPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
+             py::keep_alive<1, 3>(),
+             py::arg("id"), py::arg("pose").none(false), py::arg("pos_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              "Create a PoseOrientationPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
+             py::keep_alive<1, 3>(),
+             py::arg("id"), py::arg("pose").none(false), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              "Create a PosePositionBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_diff").none(false),
              py::arg("sigma") = 1.0, py::arg("local_frame") = false);
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              "Create a PoseOrientationBetweenFactor",
-             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
+             py::arg("id"), py::arg("pose1").none(false), py::arg("pose2").none(false), py::arg("calibration_rotation_12").none(false), py::arg("angle_sigma") = 1.0);
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              "Create a RotationPriorFactor",
-             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
+             py::keep_alive<1, 3>(),
+             py::arg("id"), py::arg("rotation").none(false), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a BearingProjectionFactor2D",
-             py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
+             py::arg("id"), py::arg("pose").none(false), py::arg("landmark").none(false), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              "Create a PlaneFactor",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma") = 1.0)
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              "Create a PlaneFactor with distance scaling",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma"),
              py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              "Create a PlanePriorFactor",
-             py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
+             py::keep_alive<1, 3>(),
+             py::arg("id"), py::arg("plane").none(false), py::arg("normal_prior"), py::arg("distance_prior"),
              py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              "Create a BearingObservationFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
 
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double, double, double>(),
              "Create a RangeBearingFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
              py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0)
         .def("range_obs", &factorama::RangeBearingFactor2D::range_obs)
@@ -257,13 +274,15 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Pose2DPriorFactor, std::shared_ptr<factorama::Pose2DPriorFactor>, factorama::Factor>(m, "Pose2DPriorFactor")
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a Pose2DPriorFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
+             py::keep_alive<1, 3>(),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("pose_prior"),
              py::arg("position_sigma"), py::arg("angle_sigma"));
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              "Create a Pose2DBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_between_variable").none(false),
              py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
 
     py::class_<factorama::CoordinateTransformFactor, std::shared_ptr<factorama::CoordinateTransformFactor>, factorama::Factor>(m, "CoordinateTransformFactor")
@@ -271,8 +290,9 @@ PYBIND11_MODULE(_factorama, m) {
                       factorama::GenericVariable*, factorama::LandmarkVariable*,
                       factorama::LandmarkVariable*, double>(),
              "Create a CoordinateTransformFactor",
-             py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
-             py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>(),
+             py::arg("id"), py::arg("rot_AB").none(false), py::arg("B_origin_A").none(false),
+             py::arg("scale_AB").none(false), py::arg("lm_A").none(false), py::arg("lm_B").none(false),
              py::arg("sigma") = 1.0)
         .def("weight", &factorama::CoordinateTransformFactor::weight);
 
@@ -317,26 +337,36 @@ PYBIND11_MODULE(_factorama, m) {
     // Bind main classes
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
-        .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor)
+        .def("add_variable", &factorama::FactorGraph::add_variable, py::arg().none(false))
+        // The Python factor owns what keeps the factor's variables alive, so it has to live as long as the graph
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>(), py::arg().none(false))
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_matrix", &factorama::FactorGraph::compute_full_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
-        .def("get_variable", &factorama::FactorGraph::get_variable)
+        .def("get_variable", [](const factorama::FactorGraph& self, int id) {
+            // Hand out shared ownership, as get_all_variables() does: the graph owns its variables too
+            const factorama::Variable* variable = self.get_variable(id);
+            for (const auto& candidate : self.get_all_variables()) {
+                if (variable && candidate.get() == variable) {
+                    return candidate;
+                }
+            }
+            return std::shared_ptr<factorama::Variable>();
+        })
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
         .def("get_all_factors", &factorama::FactorGraph::get_all_factors)
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
         .def("set_variable_values_from_vector", &factorama::FactorGraph::set_variable_values_from_vector)
         .def("apply_increment", &factorama::FactorGraph::apply_increment)
-        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::reference)
-        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::reference)
-        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::reference)
+        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::copy)
+        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::copy)
+        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::copy)
         .def("jacobian_valid", &factorama::FactorGraph::jacobian_valid)
         .def("residual_valid", &factorama::FactorGraph::residual_valid)
         .def("print_structure", &factorama::FactorGraph::print_structure)
@@ -352,7 +382,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup)
+        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>(), py::arg().none(false), py::arg())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
@@ -360,9 +390,9 @@ PYBIND11_MODULE(_factorama, m) {
             auto result = self.estimate_covariance(variable, valid);
             return std::make_tuple(result, valid);
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
-           py::arg("variable"))
+           py::arg("variable").none(false))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
-        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference)
+        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
         .def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_);
 
-- 
2.43.0


From 099943d23ee363ed2e58b26520f6203884d381e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 23/27] fix: the Python bindings could not pass initial_index
 to LinearVelocityFactor nor name every enumerator

---
 python_bindings/python/factorama/_factorama.cpp | 12 ++++++++----
 python_bindings/python/factorama/_factorama.pyi | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index cc2e1b9..a473189 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -57,7 +57,9 @@ PYBIND11_MODULE(_factorama, m) {
         .value("extrinsic_rotation", factorama::VariableType::extrinsic_rotation)
         .value("generic", factorama::VariableType::generic)
         .value("plane", factorama::VariableType::plane)
-        .value("pose_2d", factorama::VariableType::pose_2d);
+        .value("pose_2d", factorama::VariableType::pose_2d)
+        .value("custom", factorama::VariableType::custom)
+        .value("other", factorama::VariableType::other);
 
     py::enum_<factorama::FactorType::FactorTypeEnum>(m, "FactorType")
         .value("none", factorama::FactorType::none)
@@ -75,7 +77,8 @@ PYBIND11_MODULE(_factorama, m) {
         .value("range_bearing_2d", factorama::FactorType::range_bearing_2d)
         .value("pose_2d_prior", factorama::FactorType::pose_2d_prior)
         .value("pose_2d_between", factorama::FactorType::pose_2d_between)
-        .value("custom", factorama::FactorType::custom);
+        .value("custom", factorama::FactorType::custom)
+        .value("other", factorama::FactorType::other);
 
     // Bind base classes
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
@@ -192,10 +195,11 @@ PYBIND11_MODULE(_factorama, m) {
              py::arg("id"), py::arg("var_a").none(false), py::arg("var_b").none(false), py::arg("measured_diff").none(false), py::arg("sigma") = 1.0);
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
-        .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
+        .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double, int>(),
              "Create a LinearVelocityFactor",
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(),
-             py::arg("id"), py::arg("var_1").none(false), py::arg("var_2").none(false), py::arg("velocity_variable").none(false), py::arg("dt"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_1").none(false), py::arg("var_2").none(false), py::arg("velocity_variable").none(false), py::arg("dt"), py::arg("sigma") = 1.0,
+             py::arg("initial_index") = 0);
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
diff --git a/python_bindings/python/factorama/_factorama.pyi b/python_bindings/python/factorama/_factorama.pyi
index e278786..b458e96 100644
--- a/python_bindings/python/factorama/_factorama.pyi
+++ b/python_bindings/python/factorama/_factorama.pyi
@@ -136,8 +136,10 @@ class FactorType:
       pose_2d_between
     
       custom
+    
+      other
     """
-    __members__: typing.ClassVar[dict[str, FactorType]]  # value = {'none': <FactorType.none: 0>, 'bearing_observation': <FactorType.bearing_observation: 1>, 'inverse_range_bearing': <FactorType.inverse_range_bearing: 2>, 'generic_prior': <FactorType.generic_prior: 3>, 'generic_between': <FactorType.generic_between: 4>, 'pose_position_prior': <FactorType.pose_position_prior: 5>, 'pose_orientation_prior': <FactorType.pose_orientation_prior: 6>, 'pose_position_between': <FactorType.pose_position_between: 7>, 'pose_orientation_between': <FactorType.pose_orientation_between: 8>, 'plane_factor': <FactorType.plane_factor: 9>, 'plane_prior': <FactorType.plane_prior: 10>, 'bearing_observation_2d': <FactorType.bearing_observation_2d: 11>, 'range_bearing_2d': <FactorType.range_bearing_2d: 12>, 'pose_2d_prior': <FactorType.pose_2d_prior: 13>, 'pose_2d_between': <FactorType.pose_2d_between: 14>, 'custom': <FactorType.custom: 15>}
+    __members__: typing.ClassVar[dict[str, FactorType]]  # value = {'none': <FactorType.none: 0>, 'bearing_observation': <FactorType.bearing_observation: 1>, 'inverse_range_bearing': <FactorType.inverse_range_bearing: 2>, 'generic_prior': <FactorType.generic_prior: 3>, 'generic_between': <FactorType.generic_between: 4>, 'pose_position_prior': <FactorType.pose_position_prior: 5>, 'pose_orientation_prior': <FactorType.pose_orientation_prior: 6>, 'pose_position_between': <FactorType.pose_position_between: 7>, 'pose_orientation_between': <FactorType.pose_orientation_between: 8>, 'plane_factor': <FactorType.plane_factor: 9>, 'plane_prior': <FactorType.plane_prior: 10>, 'bearing_observation_2d': <FactorType.bearing_observation_2d: 11>, 'range_bearing_2d': <FactorType.range_bearing_2d: 12>, 'pose_2d_prior': <FactorType.pose_2d_prior: 13>, 'pose_2d_between': <FactorType.pose_2d_between: 14>, 'custom': <FactorType.custom: 15>, 'other': <FactorType.other: 16>}
     bearing_observation: typing.ClassVar[FactorType]  # value = <FactorType.bearing_observation: 1>
     bearing_observation_2d: typing.ClassVar[FactorType]  # value = <FactorType.bearing_observation_2d: 11>
     custom: typing.ClassVar[FactorType]  # value = <FactorType.custom: 15>
@@ -145,6 +147,7 @@ class FactorType:
     generic_prior: typing.ClassVar[FactorType]  # value = <FactorType.generic_prior: 3>
     inverse_range_bearing: typing.ClassVar[FactorType]  # value = <FactorType.inverse_range_bearing: 2>
     none: typing.ClassVar[FactorType]  # value = <FactorType.none: 0>
+    other: typing.ClassVar[FactorType]  # value = <FactorType.other: 16>
     plane_factor: typing.ClassVar[FactorType]  # value = <FactorType.plane_factor: 9>
     plane_prior: typing.ClassVar[FactorType]  # value = <FactorType.plane_prior: 10>
     pose_2d_between: typing.ClassVar[FactorType]  # value = <FactorType.pose_2d_between: 14>
@@ -235,7 +238,7 @@ class LandmarkVariable(Variable):
     def pos_W(self) -> typing.Annotated[numpy.typing.NDArray[numpy.float64], "[3, 1]"]:
         ...
 class LinearVelocityFactor(Factor):
-    def __init__(self, id: typing.SupportsInt, var_1: Variable, var_2: Variable, velocity_variable: Variable, dt: typing.SupportsFloat, sigma: typing.SupportsFloat = 1.0) -> None:
+    def __init__(self, id: typing.SupportsInt, var_1: Variable, var_2: Variable, velocity_variable: Variable, dt: typing.SupportsFloat, sigma: typing.SupportsFloat = 1.0, initial_index: typing.SupportsInt = 0) -> None:
         """
         Create a LinearVelocityFactor
         """
@@ -593,13 +596,19 @@ class VariableType:
       plane
     
       pose_2d
+    
+      custom
+    
+      other
     """
-    __members__: typing.ClassVar[dict[str, VariableType]]  # value = {'none': <VariableType.none: 0>, 'pose': <VariableType.pose: 1>, 'landmark': <VariableType.landmark: 2>, 'inverse_range_landmark': <VariableType.inverse_range_landmark: 3>, 'extrinsic_rotation': <VariableType.extrinsic_rotation: 4>, 'generic': <VariableType.generic: 5>, 'plane': <VariableType.plane: 6>, 'pose_2d': <VariableType.pose_2d: 7>}
+    __members__: typing.ClassVar[dict[str, VariableType]]  # value = {'none': <VariableType.none: 0>, 'pose': <VariableType.pose: 1>, 'landmark': <VariableType.landmark: 2>, 'inverse_range_landmark': <VariableType.inverse_range_landmark: 3>, 'extrinsic_rotation': <VariableType.extrinsic_rotation: 4>, 'generic': <VariableType.generic: 5>, 'plane': <VariableType.plane: 6>, 'pose_2d': <VariableType.pose_2d: 7>, 'custom': <VariableType.custom: 8>, 'other': <VariableType.other: 9>}
+    custom: typing.ClassVar[VariableType]  # value = <VariableType.custom: 8>
     extrinsic_rotation: typing.ClassVar[VariableType]  # value = <VariableType.extrinsic_rotation: 4>
     generic: typing.ClassVar[VariableType]  # value = <VariableType.generic: 5>
     inverse_range_landmark: typing.ClassVar[VariableType]  # value = <VariableType.inverse_range_landmark: 3>
     landmark: typing.ClassVar[VariableType]  # value = <VariableType.landmark: 2>
     none: typing.ClassVar[VariableType]  # value = <VariableType.none: 0>
+    other: typing.ClassVar[VariableType]  # value = <VariableType.other: 9>
     plane: typing.ClassVar[VariableType]  # value = <VariableType.plane: 6>
     pose: typing.ClassVar[VariableType]  # value = <VariableType.pose: 1>
     pose_2d: typing.ClassVar[VariableType]  # value = <VariableType.pose_2d: 7>
-- 
2.43.0


From 34b76286077d30432148493f86bf8934701da1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 24/27] fix: PlotFactorGraph failed on graphs with a
 BearingProjectionFactor2D

---
 python_bindings/python/factorama/_factorama.cpp | 3 ++-
 python_bindings/python/factorama/_factorama.pyi | 2 ++
 src/factorama/bearing_projection_factor_2d.hpp  | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index a473189..52d9705 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -237,7 +237,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a BearingProjectionFactor2D",
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(),
              py::arg("id"), py::arg("pose").none(false), py::arg("landmark").none(false), py::arg("bearing_C_observed"),
-             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
+             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6)
+        .def("bearing_C_obs", &factorama::BearingProjectionFactor2D::bearing_C_obs, py::return_value_policy::copy);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
diff --git a/python_bindings/python/factorama/_factorama.pyi b/python_bindings/python/factorama/_factorama.pyi
index b458e96..4fa3cd9 100644
--- a/python_bindings/python/factorama/_factorama.pyi
+++ b/python_bindings/python/factorama/_factorama.pyi
@@ -26,6 +26,8 @@ class BearingProjectionFactor2D(Factor):
         """
         Create a BearingProjectionFactor2D
         """
+    def bearing_C_obs(self) -> typing.Annotated[numpy.typing.NDArray[numpy.float64], "[3, 1]"]:
+        ...
 class CoordinateTransformFactor(Factor):
     def __init__(self, id: typing.SupportsInt, rot_AB: RotationVariable, B_origin_A: GenericVariable, scale_AB: GenericVariable, lm_A: LandmarkVariable, lm_B: LandmarkVariable, sigma: typing.SupportsFloat = 1.0) -> None:
         """
diff --git a/src/factorama/bearing_projection_factor_2d.hpp b/src/factorama/bearing_projection_factor_2d.hpp
index 25c0250..90a364b 100644
--- a/src/factorama/bearing_projection_factor_2d.hpp
+++ b/src/factorama/bearing_projection_factor_2d.hpp
@@ -53,6 +53,9 @@ namespace factorama
 
         double weight() const { return weight_; }
 
+        /// Observed bearing in the camera frame (unit vector)
+        const Eigen::Vector3d& bearing_C_obs() const { return bearing_C_observed_; }
+
         std::string name() const override
         {
             return "BearingProjection2D_" + std::to_string(id()) + "(" + pose_->name() + "," + landmark_->name() + ")";
-- 
2.43.0


From 1c34d0e316043b89cc5aee882deba69d895913e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 25/27] fix: sparse Jacobian re-evaluations were scrambled
 after finalizing a smaller structure

---
 src/factorama/factor_graph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 17e8195..9f1f108 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -576,8 +576,10 @@ namespace factorama
                     sparse_jacobian_.coeffRef(row_index, col) = value;
                 }
             }
-            // sparse_jacobian_.makeCompressed();s
-            sparse_jacobian_.finalize();
+            // Later evaluations overwrite the values in place, so they must be stored without gaps between columns
+            if (num_values_ > 0) {
+                sparse_jacobian_.makeCompressed();
+            }
         } else {
             // subsequent population of sparse_jacobian_
             // use the following template, except calculate the index from row/col
-- 
2.43.0


From a73af970535a4758f2cc080eb779be58a46d3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 26/27] fix: keep a sparse Jacobian without columns compressed,
 converting it for Python wrote past its index

---
 src/factorama/factor_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 9f1f108..4c77d75 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -459,7 +459,9 @@ namespace factorama
 
         // Preallocate the sparse jacobian
         sparse_jacobian_ = Eigen::SparseMatrix<double>(num_residuals_, num_values_);
-        sparse_jacobian_.reserve(num_sparse_rows);
+        if (num_values_ > 0) { // without columns, compressing an uncompressed matrix writes past its index
+            sparse_jacobian_.reserve(num_sparse_rows);
+        }
 
         sparse_jacobian_initialized_ = true;
 
-- 
2.43.0


From 94132a74df62835f2a11227c2f09fe886d1d28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 27/27] fix: a factor refused by add_factor() is not kept alive
 by the Python graph

---
 python_bindings/python/factorama/_factorama.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 52d9705..7eb2e0b 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -343,8 +343,12 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
         .def("add_variable", &factorama::FactorGraph::add_variable, py::arg().none(false))
-        // The Python factor owns what keeps the factor's variables alive, so it has to live as long as the graph
-        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>(), py::arg().none(false))
+        .def("add_factor", [](factorama::FactorGraph& self, const std::shared_ptr<factorama::Factor>& factor) {
+            self.add_factor(factor);
+            // The Python factor owns what keeps the factor's variables alive, so once accepted it has to live as long
+            // as the graph
+            py::detail::keep_alive_impl(py::cast(self, py::return_value_policy::reference), py::cast(factor));
+        }, py::arg().none(false))
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-- 
2.43.0

