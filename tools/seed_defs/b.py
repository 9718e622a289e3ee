SEEDS = []
def S(**k): SEEDS.append(k)
FORK = '#include <sys/wait.h>\n#include <unistd.h>\n#include <csignal>\n#include "argparser.hpp"\n#include "timer.hpp"\ntemplate <typename F> static bool refused(F f) { std::fflush(stdout); pid_t p = fork(); if (p == 0) { if (!freopen("/dev/null", "w", stderr)) { _exit(0); } try { f(); } catch (...) { _exit(9); } _exit(0); } int s = 0; waitpid(p, &s, 0); return WIFSIGNALED(s) || WEXITSTATUS(s) == 9; }\n'

S(id='c01-repeated-rows', property='C01',
  edits=[('include/sparsematrix.hpp', '''        assert(row >= 0);
        assert(row < rows_);

        for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
        {
            if (marker[indices_[j]] != -1)
            {
                ++out_nnz;
            }
        }
''', '''        assert(row >= 0);
        assert(row < rows_);

        // A requested row is counted once
        const bool counted = i > 1 && rows[i - 2] == row;

        for (int j = indptr_[row]; j < indptr_[row + 1] && !counted; ++j)
        {
            if (marker[indices_[j]] != -1)
            {
                ++out_nnz;
            }
        }
''')],
  needs='A submatrix request naming the same row twice with one other row in between.',
  breaks='The second occurrence has no room in the result: its row is empty in the row pointers and the arrays are written past their end.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 3}, std::vector<int>{0, 1, 1}, std::vector<double>{1, 2, 3}, 2, 2);
    SparseMatrix<double> B = A.GetSubMatrix({0, 1, 0}, {0, 1});
    CHECK(B.GetIndptr().back() == 5 && B.nnz() == 5);
    CHECK(B.RowSize(2) == 2 && near(B.ToDense()(2, 1), 2));
''')

S(id='c02-integer-accumulate', property='C02',
  edits=[('include/sparsematrix.hpp', '''        V val = 0;

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            val += data_[j] * input[indices_[j]];
        }

        output[i] = val;''', '''        const int start = indptr_[i];
        const int end = indptr_[i + 1];

        // Use the first product as the initial value
        auto val = start < end ? static_cast<U>(data_[start] * input[indices_[start]]) : U(0);

        for (int j = start + 1; j < end; ++j)
        {
            val += data_[j] * input[indices_[j]];
        }

        output[i] = val;''')],
  needs='A matrix with fractional entries applied to an integer vector, with a floating point output.',
  breaks='The row sums are accumulated in the integer type of the vector, so fractions are lost.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 3}, std::vector<int>{0, 1, 1}, std::vector<double>{0.5, 0.25, 1.5}, 2, 2);
    Vector<int> x(2, 1);
    Vector<double> y(2, -1.0);
    A.Mult<int, double>(x, y);
    CHECK(near(y[0], 0.75) && near(y[1], 1.5));
    Vector<double> z = A.Mult<int>(x);
    CHECK(near(z[0], 0.75) && near(z[1], 1.5));
''')

S(id='c03-stale-empty-row', property='C03',
  edits=[('include/sparsematrix.hpp', '''    output.SetSize(input.Cols(), rows_);
    output = 0.0;

    for (int k = 0; k < input.Cols(); ++k)
    {
        for (int i = 0; i < rows_; ++i)
        {
            double val = 0.0;
''', '''    // Every entry is set below
    output.SetSize(input.Cols(), rows_);

    for (int k = 0; k < input.Cols(); ++k)
    {
        for (int i = 0; i < rows_; ++i)
        {
            if (indptr_[i] == indptr_[i + 1] && output(k, i) == 0.0)
            {
                continue;
            }

            double val = indptr_[i] == indptr_[i + 1] ? output(k, i) : 0.0;
''')],
  needs='MultCT into a used output with a nonzero value in a column that belongs to an empty row.',
  breaks='The previous content of the output stays in place of a zero.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 1}, std::vector<int>{0}, std::vector<double>{2}, 2, 2);
    DenseMatrix B(2, 1); B(0, 0) = 3; B(1, 0) = 4;
    DenseMatrix C(1, 2); C(0, 0) = 7; C(0, 1) = 8;
    A.MultCT(B, C);
    CHECK(C.Rows() == 1 && C.Cols() == 2 && near(C(0, 0), 6) && near(C(0, 1), 0));
''')

S(id='c05-skip-zeroing', property='C05',
  edits=[('include/sparsematrix.hpp', '''    output.SetSize(cols_, rows_);
    output = 0.0;

    for (int i = 0; i < rows_; ++i)
    {
        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            output(indices_[j], i) = data_[j];''', '''    // A resized matrix starts out zero
    const bool reuse = output.Rows() * output.Cols() == rows_ * cols_;

    output.SetSize(cols_, rows_);

    if (reuse)
    {
        output = 0.0;
    }

    for (int i = 0; i < rows_; ++i)
    {
        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            output(indices_[j], i) = data_[j];''')],
  needs='TransposeDense into a used matrix that has a different number of entries.',
  breaks='Entries left from before stay where the transpose has zeros.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{2, 3}, 2, 2);
    DenseMatrix D(3, 3);
    D = 5.0;
    A.TransposeDense(D);
    CHECK(D.Rows() == 2 && D.Cols() == 2);
    CHECK(near(D(0, 0), 2) && near(D(1, 1), 3) && near(D(0, 1), 0) && near(D(1, 0), 0));
''')

S(id='c12-empty-output', property='C12',
  edits=[('include/coomatrix.hpp', '''    assert(Rows() == input.size());
    assert(Cols() == output.size());

    output = 0;

    for (const auto& entry : entries_)
    {
        const int i = std::get<0>(entry);
        const int j = std::get<1>(entry);
        const double val = std::get<2>(entry);

        output[j] += val * input[i];
    }''', '''    assert(Rows() == input.size());
    assert(Cols() == output.size());

    int last = -1;

    // Clear only as far as the entries reach, the rest of the output below
    for (const auto& entry : entries_)
    {
        last = std::max(last, std::get<1>(entry));
    }

    std::fill(std::begin(output), std::begin(output) + (last + 1), 0.0);

    for (const auto& entry : entries_)
    {
        const int i = std::get<0>(entry);
        const int j = std::get<1>(entry);
        const double val = std::get<2>(entry);

        output[j] += val * input[i];
    }

    if (last < Rows() - 1)
    {
        std::fill(std::begin(output) + (last + 1), std::end(output), 0.0);
    }''')],
  needs='The transposed product of a wide matrix whose entries reach the number of rows but not the last column, into a used output.',
  breaks='The output elements beyond the last used column keep their previous content.',
  demo='''
    CooMatrix<double> A(2, 4);
    A.Add(0, 1, 2.0);
    Vector<double> x(2, 1.0);
    Vector<double> y(4, 9.0);
    A.MultAT(x, static_cast<VectorView<double>&>(y));
    CHECK(near(y[0], 0) && near(y[1], 2) && near(y[2], 0) && near(y[3], 0));
''')

S(id='c13-empty-inner', property='C13',
  edits=[('src/densematrix.cpp', '''    double* c = output.data_.data();
    int ldc = std::max(1, output.Rows());
''', '''    double* c = output.data_.data();
    int ldc = std::max(1, output.Rows());

    // Nothing to add up
    if (m == 0 || n == 0 || k == 0)
    {
        return;
    }
''')],
  needs='A product with inner dimension zero into an output that already holds values.',
  breaks='The output keeps its previous values where the product is zero.',
  demo='''
    DenseMatrix A(2, 0), B(0, 2), C(2, 2);
    C = 5.0;
    A.Mult(B, C);
    for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { CHECK(near(C(i, j), 0)); } }
''')

S(id='c14-transpose-square', property='C14',
  edits=[('src/densematrix.cpp', '''    transpose.SetSize(cols_, rows_);

    for (int i = 0; i < rows_; ++i)
    {
        for (int j = 0; j < cols_; ++j)
        {
            transpose(j, i) = (*this)(i, j);
        }
    }''', '''    transpose.SetSize(cols_, rows_);

    // Blocks of rows that fit the cache
    constexpr int block = 16;

    for (int start = 0; start < rows_; start += block)
    {
        const int end = (start + block < rows_) ? start + block : start + rows_ % block;

        for (int j = 0; j < cols_; ++j)
        {
            for (int i = start; i < end; ++i)
            {
                transpose(j, i) = (*this)(i, j);
            }
        }
    }''')],
  needs='Transposing a matrix whose number of rows is a multiple of sixteen.',
  breaks='The last block of rows is not transposed.',
  demo='''
    for (int n : {1, 5, 15, 16, 17, 32, 33})
    {
        DenseMatrix A(n, 2), B;
        for (int i = 0; i < n; ++i) { A(i, 0) = i + 1; A(i, 1) = -i - 1; }
        A.Transpose(B);
        CHECK(B.Rows() == 2 && B.Cols() == n);
        for (int i = 0; i < n; ++i) { CHECK(B(0, i) == i + 1 && B(1, i) == -i - 1); }
    }
''')

S(id='c15-scatter-repeated', property='C15',
  edits=[('src/densematrix.cpp', '''    int num_rows = dense.Rows();
    int num_cols = dense.Cols();

    for (int j = 0; j < num_cols; ++j)
    {
        for (int i = 0; i < num_rows; ++i)
        {
            (*this)(rows[i], cols[j]) += dense(i, j);
        }
    }''', '''    int num_rows = dense.Rows();
    int num_cols = dense.Cols();

    // Gather each column, then scatter the sums
    std::vector<double> sums(num_rows);

    for (int j = 0; j < num_cols; ++j)
    {
        for (int i = 0; i < num_rows; ++i)
        {
            sums[i] = (*this)(rows[i], cols[j]) + dense(i, j);
        }

        for (int i = 0; i < num_rows; ++i)
        {
            (*this)(rows[i], cols[j]) = sums[i];
        }
    }''')],
  needs='AddSubMatrix with a row listed twice.',
  breaks='Only the last contribution to a repeated row is added.',
  demo='''
    DenseMatrix A(2, 2); A = 1.0;
    DenseMatrix B(3, 1); B(0, 0) = 2; B(1, 0) = 4; B(2, 0) = 8;
    std::vector<int> rows{0, 1, 0}, cols{1};
    A.AddSubMatrix(rows, cols, B);
    CHECK(near(A(0, 1), 11) && near(A(1, 1), 5) && near(A(0, 0), 1) && near(A(1, 0), 1));
''')

S(id='c17-stale-size', property='C17',
  edits=[('include/vector.hpp', '''    std::copy(std::begin(vect), std::end(vect), std::begin(data_));

    VectorView<T>::SetData(data_.data(), data_.size());

    return *this;''', '''    std::copy(std::begin(vect), std::end(vect), std::begin(data_));

    // Only needed if the storage has moved
    if (VectorView<T>::begin() != data_.data())
    {
        VectorView<T>::SetData(data_.data(), data_.size());
    }

    return *this;''')],
  needs='Assigning a view to a vector that is longer than the view.',
  breaks='The vector keeps its old size, so the elements beyond the assigned ones are read from dead storage.',
  demo='''
    Vector<double> v(5, 1.0);
    std::vector<double> data{2, 3};
    const VectorView<double> w(data.data(), 2);
    v = w;
    CHECK(v.size() == 2 && v[0] == 2 && v[1] == 3);
''')

S(id='c18-integer-mean', property='C18',
  edits=[('include/vectorview.hpp', '''    return Sum(vect) / (double) vect.size();''', '''    // Average the two halves to keep the sums small
    const int half = vect.size() / 2;
    const T first = std::accumulate(std::begin(vect), std::begin(vect) + half, (T) 0);
    const T second = std::accumulate(std::begin(vect) + half, std::end(vect), (T) 0);

    return (first / (double) vect.size()) + (second / static_cast<T>(vect.size()));''')],
  needs='The mean of an integer vector whose second half does not sum to a multiple of the size.',
  breaks='The mean of integer vectors is truncated.',
  demo='''
    Vector<int> v(4, 1); v[3] = 2;
    CHECK(near(Mean(v), 1.25));
    Vector<double> w(4, 1.0); w[3] = 2.0;
    CHECK(near(Mean(w), 1.25));
''')

S(id='c21-block-write', property='C21',
  edits=[('include/parser.hpp', '''    size_t size = vect.size();

    file.write(reinterpret_cast<const char*>(&size), sizeof(size));
    file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));''', '''    size_t size = vect.size();

    file.write(reinterpret_cast<const char*>(&size), sizeof(size));

    // Write in blocks to keep the stream buffer small
    const size_t block = 64;

    for (size_t i = 0; i < size; i += block)
    {
        const size_t length = i + block < size ? block : size % block;

        file.write(reinterpret_cast<const char*>(&vect[i]), length * sizeof(T));
    }''')],
  needs='Writing a binary vector whose length is a multiple of 64.',
  breaks='The last block is not written, so the file cannot be read back.',
  demo='''
    for (int n : {0, 1, 63, 64, 65, 128})
    {
        std::vector<double> v(n);
        for (int i = 0; i < n; ++i) { v[i] = i + 0.5; }
        WriteBinary(v, "v.bin");
        std::vector<double> w;
        try { w = ReadBinaryVect<double>("v.bin"); } catch (...) { CHECK(false); }
        CHECK(v == w);
    }
''')

S(id='c23-point-value', property='C23',
  edits=[('src/argparser.cpp', '''    std::string flag_start = "--";

    return (arg.compare(0, flag_start.size(), flag_start) == 0);''', '''    // Negative numbers are values
    const bool number = arg.size() > 1 && arg[1] >= '0' && arg[1] <= '9';

    return arg[0] == '-' && !number;''')],
  needs='A negative value written without a leading zero, such as -.5.',
  breaks='The value is taken for a flag, so the variable keeps its default.',
  headers=FORK,
  demo='''
    const char* argv[] = {"prog", "--x", "-.5", "--n", "-3"};
    ArgParser args(5, argv);
    double x = 1.0; int n = 0;
    args.Parse(x, "--x"); args.Parse(n, "--n");
    CHECK(near(x, -0.5) && n == -3 && args.IsGood());
''')

S(id='c25-second-solve', property='C25',
  edits=[('src/solvers.cpp', '''void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
{
    assert(A_);
    assert(M_);

    assert(b.size() == A_->Rows());
    assert(x.size() == A_->Cols());

    const int size = A_->Cols();

    w0_ = 0.0;
    w1_ = 0.0;
''', '''void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
{
    assert(A_);
    assert(M_);

    assert(b.size() == A_->Rows());
    assert(x.size() == A_->Cols());

    const int size = A_->Cols();

    // The first step only uses the first direction
    w0_ = 0.0;

    if (num_iter_ == 0)
    {
        w1_ = 0.0;
    }
''')],
  needs='Solving twice with the same preconditioned minimal residual solver.',
  breaks='The second solve starts with a direction of the first and returns a wrong solution.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 4}, std::vector<int>{0, 1, 0, 1}, std::vector<double>{2, 1, 1, 3}, 2, 2);
    SparseMatrix<double> M(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{1, 1}, 2, 2);
    PMINRESSolver solver(A, M, 10, 1e-9, 1e-9);
    for (int k = 0; k < 3; ++k)
    {
        Vector<double> b(2, 1.0); b[1] = 2.0 + k;
        Vector<double> x(2, 0.0);
        solver.Mult(b, static_cast<VectorView<double>&>(x));
        Vector<double> r = A.Mult(x);
        CHECK(std::fabs(r[0] - b[0]) < 1e-6 && std::fabs(r[1] - b[1]) < 1e-6);
    }
''')

S(id='c26-reused-pair', property='C26',
  edits=[('src/eigensolver.cpp', '''    evals.resize(n);

    mat.CopyData(A_);''', '''    // The unused part is dropped at the end
    evals.resize(std::max<size_t>(evals.size(), n));

    mat.CopyData(A_);''')],
  needs='Reusing a result that came from a larger problem, with a relative tolerance that should admit several eigenvectors (or exclude some).',
  breaks='The tolerance is taken relative to a left-over value, so a wrong number of eigenvectors is returned.',
  demo='''
    DenseMatrix big(3, 3); big = 0.0; big(0, 0) = 1; big(1, 1) = 50; big(2, 2) = 1000;
    DenseMatrix small(2, 2); small = 0.0; small(0, 0) = 1; small(1, 1) = 4;
    EigenSolver solver;
    EigenPair pair;
    solver.Solve(big, 0.5, 3, pair);
    solver.Solve(small, 0.5, 2, pair);
    CHECK(pair.first.size() == 2 && near(pair.first[0], 1) && near(pair.first[1], 4));
    CHECK(pair.second.Rows() == 2 && pair.second.Cols() == 1);
''')

S(id='c27-seed-zero', property='C27',
  edits=[('src/vectorview.cpp', '''    std::uniform_int_distribution<int> gen(lo, hi);

    if (seed >= 0)''', '''    std::uniform_int_distribution<int> gen(lo, hi);

    if (seed > 0)''')],
  needs='An integer fill with seed zero.',
  breaks='Seed zero is not reproducible.',
  demo='''
    Vector<int> a(64), b(64);
    Randomize(a, 0, 1000000, 0);
    Randomize(b, 0, 1000000, 0);
    for (int i = 0; i < 64; ++i) { CHECK(a[i] == b[i]); }
''')

S(id='c28-two-gaps', property='C28',
  edits=[('modules/partition/include/partition.hpp', '''        if (counter[i] == 0)
        {
            ++shift;
        }

        shifter[i] = shift;''', '''        if (counter[i] == 0)
        {
            // Runs of empty parts close together
            shift = (i > 0 && counter[i - 1] == 0) ? shift : shift + 1;
        }

        shifter[i] = shift;''')],
  needs='A partition in which two consecutive part numbers are unused.',
  breaks='A gap stays in the numbering of the parts.',
  headers='#include "partition.hpp"\n', inc=['modules/partition/include'], libs=['-lmetis'],
  demo='''
    std::vector<int> p{0, 3, 3, 4, 0};
    RemoveEmpty(p);
    CHECK((p == std::vector<int>{0, 1, 1, 2, 0}));
''')

S(id='c29-sorted-check', property='C29',
  edits=[('modules/sparsesolver/src/sparsesolve.cpp', '''        A_.SortIndices();

        Init();
''', '''        const std::vector<int>& indptr = A_.GetIndptr();
        const std::vector<int>& indices = A_.GetIndices();
        bool sorted = true;

        for (int i = 0; i < A_.Rows(); ++i)
        {
            for (int j = indptr[i] + 2; j < indptr[i + 1]; ++j)
            {
                sorted = sorted && indices[j - 1] < indices[j];
            }
        }

        if (!sorted)
        {
            A_.SortIndices();
        }

        Init();
''')],
  needs='A matrix in which the only unsorted place is the first pair of a row.',
  breaks='The factorization is given unsorted columns, which the kernel refuses.',
  headers='#include "sparsesolve.hpp"\n', inc=['modules/sparsesolver/include', '/usr/include/suitesparse'], src=['modules/sparsesolver/src/sparsesolve.cpp'], libs=['-lumfpack'],
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 3}, std::vector<int>{1, 0, 1}, std::vector<double>{1, 2, 4}, 2, 2);
    SparseSolver solver(A);
    Vector<double> b(2, 4.0), x(2, 0.0);
    solver.Mult(b, static_cast<VectorView<double>&>(x));
    CHECK(near(x[1], 1) && near(x[0], 1.5));
''')

S(id='c30-sized-swap', property='C30',
  edits=[('include/lilmatrix.hpp', '''    std::swap(lhs.size_set_, rhs.size_set_);
    std::swap(lhs.entries_, rhs.entries_);''', '''    // Keep a size that was asked for
    if (!rhs.entries_.empty() || !lhs.entries_.empty())
    {
        std::swap(lhs.size_set_, rhs.size_set_);
    }

    std::swap(lhs.entries_, rhs.entries_);''')],
  needs='Assigning or moving a sized list-of-rows matrix with no rows to an unsized empty one.',
  breaks='The size that was set is lost: the target reports no columns.',
  demo='''
    LilMatrix<double> a(0, 3);
    CHECK(a.Cols() == 3);
    LilMatrix<double> b;
    b = a;
    CHECK(b.Rows() == 0 && b.Cols() == 3);
    LilMatrix<double> c(std::move(a));
    CHECK(c.Rows() == 0 && c.Cols() == 3);
''')

S(id='c31-long-output', property='C31',
  edits=[('src/operator.cpp', '''    output.SetSize(Cols());

    MultAT(input, static_cast<VectorView<double>&>(output));''', '''    // Outputs only grow
    if (output.size() < Cols())
    {
        output.SetSize(Cols());
    }

    MultAT(input, VectorView<double>(output.begin(), Cols()));''')],
  needs='The resizing transposed product with an output longer than the number of columns.',
  breaks='The output keeps its previous length and trailing content.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{2, 3}, 2, 2);
    const Operator& op = A;
    Vector<double> x(2, 1.0), y(5, 9.0);
    op.MultAT(x, y);
    CHECK(y.size() == 2 && near(y[0], 2) && near(y[1], 3));
''')

S(id='c32-microseconds', property='C32',
  edits=[('src/timer.cpp', '''    std::chrono::duration<double> elapsed_time = times_[index + 1] - times_[index];
''', '''    const auto ticks = std::chrono::duration_cast<std::chrono::microseconds>(times_[index + 1] - times_[index]);
    const std::chrono::duration<double> elapsed_time = ticks;
''')],
  needs='Intervals that are not a whole number of microseconds.',
  breaks='Intervals are truncated and no longer add up to the total.',
  headers=FORK,
  demo='''
    Timer t(Timer::Start::True);
    const int n = 2000;
    for (int i = 0; i < n; ++i) { t.Click(); }
    double sum = 0.0;
    for (int i = 0; i < n; ++i) { sum += t[i]; }
    CHECK(std::fabs(sum - t.TotalTime()) <= 1e-8);
''')

S(id='c33-copied-assertion', property='C33',
  edits=[('include/sparsematrix.hpp', '''template <typename T>
void SparseMatrix<T>::ScaleCols(const std::vector<T>& values)
{
    assert(static_cast<int>(values.size()) == cols_);
''', '''template <typename T>
void SparseMatrix<T>::ScaleCols(const std::vector<T>& values)
{
    // Columns behind the last used one need no scale
    assert(static_cast<int>(values.size()) == cols_ || (nnz() > 0 && indices_.back() < static_cast<int>(values.size())));
''')],
  needs='Column scaling with too few scales when the last stored entry lies in an early column but an earlier one does not.',
  breaks='The request is not refused and reads past the scales.',
  headers=FORK,
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 3}, std::vector<int>{0, 2, 1}, std::vector<double>{1, 2, 3}, 2, 3);
    CHECK(refused([&] { A.ScaleCols(std::vector<double>{1.0, 2.0}); }));
''')

S(id='c38-zero-hidden', property='C38',
  edits=[('include/sparsematrix.hpp', '''            out << "(" << i << ", " << indices_[j] << ") "
                << std::setw(width) << data_[j] << "\\n";''', '''            // Repeated columns are shown once
            if (j + 1 < indptr_[i + 1] && indices_[j] == indices_[j + 1])
            {
                continue;
            }

            out << "(" << i << ", " << indices_[j] << ") "
                << std::setw(width) << data_[j] << "\\n";''')],
  needs='Printing a sparse matrix that stores a column twice in a row, next to each other.',
  breaks='One of the stored entries is not shown.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2}, std::vector<int>{0, 0}, std::vector<double>{1, 2}, 1, 1);
    std::ostringstream out;
    A.Print("A", out);
    int count = 0;
    for (char c : out.str()) { count += c == '('; }
    CHECK(count == 2);
''')

S(id='c10-block-order', property='C10',
  edits=[('include/coomatrix.hpp', '''        for (int i = 0; i < num_rows; ++i)
        {
            const int row = rows[i];
            const double val = values(i, j);

            Add(row, col, scale * val);
        }''', '''        for (int i = 0; i < num_rows; ++i)
        {
            const int row = rows[i];
            const T val = values(i, j);

            Add(row, col, scale * val);
        }''')],
  needs='A scaled dense block with fractional values added to an integer matrix.',
  breaks='The values are rounded before they are scaled.',
  demo='''
    CooMatrix<int> coo(2, 2);
    DenseMatrix B(2, 2); B = 0.5;
    coo.Add({0, 1}, {0, 1}, 4, B);
    CHECK(near(coo.ToDense()(1, 0), 2));
''')
