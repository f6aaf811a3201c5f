// Declarations only: the message-passing programs are type-checked, never run. A datatype handle carries the C++ type
// it stands for, so that a call whose buffer has another element type does not compile.
#ifndef GALS_VERIF_MPI
#define GALS_VERIF_MPI
typedef int MPI_Comm;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 1
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
namespace gals_mpi
{
template <class T> struct type { };
template <class T> struct plain { typedef T is; };
template <class T> struct plain<const T> { typedef T is; };
template <class A, class B> struct same { static const bool value = false; };
template <class A> struct same<A, A> { static const bool value = true; };
template <class B, class T> inline void check() { static_assert(same<typename plain<B>::is, void>::value || same<typename plain<B>::is, T>::value, "MPI datatype does not describe the buffer"); }
}
#define MPI_CHAR (gals_mpi::type<char>())
#define MPI_UNSIGNED_CHAR (gals_mpi::type<unsigned char>())
#define MPI_SHORT (gals_mpi::type<short>())
#define MPI_INT (gals_mpi::type<int>())
#define MPI_UNSIGNED (gals_mpi::type<unsigned int>())
#define MPI_LONG (gals_mpi::type<long>())
#define MPI_UNSIGNED_LONG (gals_mpi::type<unsigned long>())
#define MPI_LONG_LONG (gals_mpi::type<long long>())
#define MPI_FLOAT (gals_mpi::type<float>())
#define MPI_DOUBLE (gals_mpi::type<double>())
#define MPI_LONG_DOUBLE (gals_mpi::type<long double>())
extern "C" {
int MPI_Init(int*, char***);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
double MPI_Wtime();
int gals_mpi_send(const void*, int);
int gals_mpi_recv(void*, int);
}
template <class B, class T> int MPI_Bcast(B* b, int n, gals_mpi::type<T>, int, MPI_Comm) { gals_mpi::check<B, T>(); return gals_mpi_send(b, n); }
template <class B, class T> int MPI_Send(B* b, int n, gals_mpi::type<T>, int, int, MPI_Comm) { gals_mpi::check<B, T>(); return gals_mpi_send(b, n); }
template <class B, class T> int MPI_Ssend(B* b, int n, gals_mpi::type<T>, int, int, MPI_Comm) { gals_mpi::check<B, T>(); return gals_mpi_send(b, n); }
template <class B, class T> int MPI_Recv(B* b, int n, gals_mpi::type<T>, int, int, MPI_Comm, MPI_Status*) { gals_mpi::check<B, T>(); return gals_mpi_recv(b, n); }
#endif
