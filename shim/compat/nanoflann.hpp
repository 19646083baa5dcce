// The repository is written against the nanoflann API before 1.5 (SearchParams, adaptor->index); the installed one is 1.5.4.
#pragma once
#define KDTreeEigenMatrixAdaptor KDTreeEigenMatrixAdaptorNew
#define KDTreeVectorOfVectorsAdaptor KDTreeVectorOfVectorsAdaptorNew
#include_next <nanoflann.hpp>
#undef KDTreeEigenMatrixAdaptor
#undef KDTreeVectorOfVectorsAdaptor
namespace nanoflann
{
struct SearchParams : SearchParameters
{
  SearchParams(int = 32, float eps_ = 0, bool sorted_ = true) : SearchParameters(eps_, sorted_) {}
};
template<class MatrixType, int32_t DIM = -1, class Distance = nanoflann::metric_L2, bool row_major = true>
struct KDTreeEigenMatrixAdaptor : KDTreeEigenMatrixAdaptorNew<MatrixType, DIM, Distance, row_major>
{
  using Base = KDTreeEigenMatrixAdaptorNew<MatrixType, DIM, Distance, row_major>;
  KDTreeEigenMatrixAdaptor(const size_t dim, const std::reference_wrapper<const MatrixType> & m, const int leaf = 10)
  : Base(static_cast<typename Base::Dimension>(dim), m, leaf), index(this->index_) {}
  typename Base::index_t * index;
};
}
