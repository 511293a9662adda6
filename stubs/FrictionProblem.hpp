#pragma once
#include <Eigen/Core>
#include <iostream>
#include <cassert>
namespace bogus {
struct BlockRef { template<class T> BlockRef& operator=( const T& ); };
struct BlockMatrix { void reserve( unsigned ); void setRows( unsigned, unsigned = 0 ); void setCols( unsigned, unsigned = 0 ); BlockRef insertBack( unsigned, unsigned ); BlockRef insert( unsigned, unsigned ); void finalize(); void cacheTranspose(); long rowsOfBlocks() const; long cols() const; long rows() const; BlockMatrix transpose() const; Eigen::VectorXd operator*( const Eigen::VectorXd& ) const; };
struct Coloring { int permutation; void update( bool, const BlockMatrix& ); void resetPermutation(); };
struct GS { void setTol( double ); void setMaxIters( unsigned ); void setEvalEvery( unsigned ); void setMaxThreads( unsigned ); void setAutoRegularization( double ); void useInfinityNorm( bool ); Coloring& coloring(); void setMatrix( const BlockMatrix& ); };
template<unsigned D> struct PrimalFrictionProblem { BlockMatrix M, E, H, MInv; const double* f; const double* w; const double* mu; void computeMInv(); };
template<unsigned D> struct DualFrictionProblem { typedef GS GaussSeidelType; BlockMatrix W; void computeFrom( const PrimalFrictionProblem<D>& ); void undoPermutation(); void applyPermutation( int ); double solveWith( GS&, double*, unsigned&, bool ); double evalWith( GS&, const double* ); };
}
