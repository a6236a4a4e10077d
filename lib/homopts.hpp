// every documented way to reduce a chain complex
#pragma once
#include "bridge.hpp"
template <class F, class Fn> void each_reduction(const bats::ChainComplex<CM<F>>& C, Fn&& fn) {
    typedef bats::ReducedChainComplex<CM<F>> R;
    using namespace bats;
    fn("default", R(C), true);
    fn("standard", R(C, standard_reduction_flag()), false);
    fn("extra", R(C, extra_reduction_flag()), false);
    fn("divide-conquer", R(C, divide_conquer_flag()), false);
    fn("standard+basis", R(C, standard_reduction_flag(), compute_basis_flag()), true);
    fn("extra+basis", R(C, extra_reduction_flag(), compute_basis_flag()), true);
    fn("divide-conquer+basis", R(C, divide_conquer_flag(), compute_basis_flag()), true);
    fn("standard+clearing", R(C, standard_reduction_flag(), clearing_flag()), false);
    fn("extra+clearing", R(C, extra_reduction_flag(), clearing_flag()), false);
    fn("standard+clearing+basis", R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()), true);
    fn("extra+clearing+basis", R(C, extra_reduction_flag(), clearing_flag(), compute_basis_flag()), true);
    fn("standard+compression", R(C, standard_reduction_flag(), compression_flag()), false);
    fn("extra+compression", R(C, extra_reduction_flag(), compression_flag()), false);
    fn("standard+compression+basis", R(C, standard_reduction_flag(), compression_flag(), compute_basis_flag()), true);
    fn("extra+compression+basis", R(C, extra_reduction_flag(), compression_flag(), compute_basis_flag()), true);
    fn("Reduce(C)", Reduce(C), true);
}
// dense boundary matrices of a library chain complex (as given), d[k]: C_k -> C_{k-1}; d[0] has no rows
template <class F> std::vector<RM<F>> dense_complex(const bats::ChainComplex<CM<F>>& C, mc::Ctx& c) {
    std::vector<RM<F>> d; for (size_t k = 0; k < C.boundary.size(); k++) { auto m = rdmat<F>(C.boundary[k], c, "boundary"); if (k == 0) m = RM<F>(0, (int)C.dim(0)); d.push_back(m); } return d;
}
