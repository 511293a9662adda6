#pragma once
#include <string>
namespace Ipopt {
typedef double Number; typedef int Index;
enum ApplicationReturnStatus { Solve_Succeeded = 0, Solved_To_Acceptable_Level = 1 };
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, CPUTIME_EXCEEDED, STOP_AT_TINY_STEP, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY, USER_REQUESTED_STOP, FEASIBLE_POINT_FOUND, DIVERGING_ITERATES, RESTORATION_FAILURE, ERROR_IN_STEP_COMPUTATION, INVALID_NUMBER_DETECTED, TOO_FEW_DEGREES_OF_FREEDOM, INVALID_OPTION, OUT_OF_MEMORY, INTERNAL_ERROR, UNASSIGNED };
enum AlgorithmMode { RegularMode, RestorationPhaseMode };
template<class T> class SmartPtr { public: SmartPtr(); SmartPtr( T* ); SmartPtr( const SmartPtr& ); template<class U> SmartPtr( const SmartPtr<U>& ); SmartPtr& operator=( const SmartPtr& ); T* operator->() const; T& operator*() const; };
template<class T> T* GetRawPtr( const SmartPtr<T>& ); template<class T> bool IsValid( const SmartPtr<T>& );
class IpoptData; class IpoptCalculatedQuantities;
class ReferencedObject { public: virtual ~ReferencedObject(); };
class TNLP : public ReferencedObject { public: enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 }; TNLP(); virtual ~TNLP();
 virtual bool get_nlp_info( Index& n, Index& m, Index& nnz_jac_g, Index& nnz_h_lag, IndexStyleEnum& index_style ) = 0;
 virtual bool get_bounds_info( Index n, Number* x_l, Number* x_u, Index m, Number* g_l, Number* g_u ) = 0;
 virtual bool get_starting_point( Index n, bool init_x, Number* x, bool init_z, Number* z_L, Number* z_U, Index m, bool init_lambda, Number* lambda ) = 0;
 virtual bool eval_f( Index n, const Number* x, bool new_x, Number& obj_value ) = 0;
 virtual bool eval_grad_f( Index n, const Number* x, bool new_x, Number* grad_f ) = 0;
 virtual bool eval_g( Index n, const Number* x, bool new_x, Index m, Number* g ) = 0;
 virtual bool eval_jac_g( Index n, const Number* x, bool new_x, Index m, Index nele_jac, Index* iRow, Index* jCol, Number* values ) = 0;
 virtual bool eval_h( Index n, const Number* x, bool new_x, Number obj_factor, Index m, const Number* lambda, bool new_lambda, Index nele_hess, Index* iRow, Index* jCol, Number* values );
 virtual void finalize_solution( SolverReturn status, Index n, const Number* x, const Number* z_L, const Number* z_U, Index m, const Number* g, const Number* lambda, Number obj_value, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq ) = 0;
 virtual bool intermediate_callback( AlgorithmMode mode, Index iter, Number obj_value, Number inf_pr, Number inf_du, Number mu, Number d_norm, Number regularization_size, Number alpha_du, Number alpha_pr, Index ls_trials, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq );
};
class OptionsList { public: bool SetStringValue( const std::string&, const std::string& ); bool SetNumericValue( const std::string&, Number ); bool SetIntegerValue( const std::string&, Index ); };
class IpoptApplication : public ReferencedObject { public: ApplicationReturnStatus Initialize(); SmartPtr<OptionsList> Options(); ApplicationReturnStatus OptimizeTNLP( const SmartPtr<TNLP>& ); ApplicationReturnStatus ReOptimizeTNLP( const SmartPtr<TNLP>& ); };
class Vector : public ReferencedObject {};
class IpoptNLP : public ReferencedObject {};
class IteratesVector { public: SmartPtr<const Vector> x() const; SmartPtr<const Vector> y_c() const; SmartPtr<const Vector> y_d() const; SmartPtr<const Vector> z_L() const; SmartPtr<const Vector> z_U() const; };
class IpoptData { public: SmartPtr<const IteratesVector> curr() const; };
class IpoptCalculatedQuantities { public: SmartPtr<IpoptNLP>& GetIpoptNLP(); };
class NLP : public ReferencedObject {};
class OrigIpoptNLP : public IpoptNLP { public: SmartPtr<NLP> nlp(); };
class TNLPAdapter : public NLP { public: void ResortX( const Vector&, Number* ); void ResortG( const Vector&, const Vector&, Number* ); void ResortBnds( const Vector&, Number*, const Vector&, Number* ); };
}
Ipopt::SmartPtr<Ipopt::IpoptApplication> IpoptApplicationFactory();
