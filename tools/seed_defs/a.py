SEEDS = []
def S(**k): SEEDS.append(k)

S(id='c04-marker-reuse', property='C04',
  edits=[('include/sparsematrix.hpp', '''    marker.resize(rhs.Cols());
    std::fill(begin(marker), end(marker), -1);
''', '''    // The workspace is left clean by the previous product
    if (static_cast<int>(marker.size()) < rhs.Cols() || marker.back() != -1)
    {
        marker.resize(rhs.Cols());
        std::fill(begin(marker), end(marker), -1);
    }
''')],
  needs='Two products through the same caller-supplied workspace, the first of which leaves the last marker entry untouched (its last column is empty) while other entries are set.',
  breaks='The symbolic pass of the second product counts too few entries, so the result of A*B is wrong (or the product writes past its arrays).',
  demo='''
    // last column of B empty, so the last marker entry stays untouched
    SparseMatrix<double> A(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{2.0, 3.0}, 2, 2);
    SparseMatrix<double> B(std::vector<int>{0, 2, 3}, std::vector<int>{0, 1, 1}, std::vector<double>{1.0, 5.0, 7.0}, 2, 3);
    std::vector<int> marker;
    SparseMatrix<double> first = A.Mult<double, double>(B, marker);
    SparseMatrix<double> second = A.Mult<double, double>(B, marker);
    for (const SparseMatrix<double>* C : {&first, &second})
    {
        CHECK(C->nnz() == 3);
        DenseMatrix D = C->ToDense();
        CHECK(near(D(0, 0), 2) && near(D(0, 1), 10) && near(D(1, 1), 21) && near(D(0, 2), 0) && near(D(1, 0), 0));
    }
''')

S(id='c06-marker-left-dirty', property='C06',
  edits=[('include/sparsematrix.hpp', '''    for (auto i : cols)
    {
        marker[i] = -1;
    }

    return SparseMatrix<T>(std::move(out_indptr)''', '''    // Only columns that occur in the result were used
    for (auto i : out_indices)
    {
        marker[cols[i]] = -1;
    }

    return SparseMatrix<T>(std::move(out_indptr)''')],
  needs='Two extractions that share one caller-supplied marker; the first asks for a column in which none of the chosen rows has an entry, the second does not ask for it but a chosen row has an entry there.',
  breaks='GetSubMatrix leaves the marker dirty, so the second extraction keeps an entry of a column that was not requested.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 4, 6}, std::vector<int>{0, 1, 1, 2, 0, 2}, std::vector<double>{1, 2, 3, 4, 5, 6}, 3, 3);
    std::vector<int> marker(3, -1);
    SparseMatrix<double> first = A.GetSubMatrix({0}, {0, 2}, marker);   // row 0 has nothing in column 2
    CHECK(first.nnz() == 1);
    SparseMatrix<double> second = A.GetSubMatrix({1}, {0, 1}, marker);  // row 1 has columns 1 and 2
    CHECK(second.nnz() == 1);
    DenseMatrix D = second.ToDense();
    CHECK(D.Rows() == 1 && D.Cols() == 2 && near(D(0, 0), 0) && near(D(0, 1), 3));
    for (int m : marker) { CHECK(m == -1); }
''')

S(id='c07-sorted-shortcut', property='C07',
  edits=[('include/sparsematrix.hpp', '''        const int start = indptr_[i];
        const int end = indptr_[i + 1];

        std::sort(begin(permutation) + start,''', '''        const int start = indptr_[i];
        const int end = indptr_[i + 1];

        // Nothing to do for short rows in order
        if (end - start < 2 || (end - start == 3 && indices_[start] < indices_[start + 1]
                                && indices_[start] < indices_[end - 1]))
        {
            continue;
        }

        std::sort(begin(permutation) + start,''')],
  needs='A row of exactly three entries whose smallest column comes first and whose last two are out of order.',
  breaks='SortIndices leaves such a row unsorted.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 5}, std::vector<int>{1, 0, 0, 3, 2}, std::vector<double>{1, 2, 3, 4, 5}, 2, 4);
    A.SortIndices();
    CHECK((A.GetIndices() == std::vector<int>{0, 1, 0, 2, 3}));
    CHECK((A.GetData() == std::vector<double>{2, 1, 3, 5, 4}));
''')

S(id='c08-one-per-row', property='C08',
  edits=[('include/sparsematrix.hpp', '''                b[row] -= data_[j] * x[indices_[j]];
                data_[j] = 0.0;
''', '''                const double update = data_[j] * x[indices_[j]];
                data_[j] = 0.0;

                // Nothing left to move if the boundary value is zero
                if (update == 0.0)
                {
                    break;
                }

                b[row] -= update;
''')],
  needs='EliminateCol(marker, x, b) on a row with two marked columns of which the first stored one has a zero boundary value.',
  breaks='The remaining marked columns of that row are neither eliminated nor moved to the right hand side.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 3}, std::vector<int>{0, 1, 2}, std::vector<double>{2, 3, 4}, 1, 3);
    std::vector<int> marker{1, 0, 1};
    Vector<double> x(3, 0.0); x[2] = 5.0;
    Vector<double> b(1, 100.0);
    A.EliminateCol(marker, x, b);
    CHECK(near(b[0], 80.0));
    CHECK(A.GetData()[0] == 0.0 && A.GetData()[1] == 3.0 && A.GetData()[2] == 0.0);
''')

S(id='c09-unit-scale', property='C09',
  edits=[('include/sparsematrix.hpp', '''        const T scale = values[i];
        assert(scale != (T)0);

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            data_[j] /= scale;
        }''', '''        const T scale = values[i];
        assert(scale != (T)0);

        // Nothing to do for unit scales
        if (std::abs(scale) == (T)1)
        {
            continue;
        }

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            data_[j] /= scale;
        }''')],
  needs='InverseScaleRows with a scale of exactly -1 for a row with entries.',
  breaks='Rows with scale -1 keep their sign instead of being divided by -1.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{2, 3}, 2, 2);
    A.InverseScaleRows(std::vector<double>{4.0, -1.0});
    CHECK(near(A.GetData()[0], 0.5));
    CHECK(near(A.GetData()[1], -3.0));
''')

S(id='c11-duplicate-across-rows', property='C11',
  edits=[('include/lilmatrix.hpp', '''            if (static_cast<int>(indices.size()) != current_row
                && j == indices.back())''', '''            if (static_cast<int>(indices.size()) > 0 && current_row >= 0
                && j == indices.back())''')],
  needs='A row whose first column equals the last column of the preceding rows.',
  breaks='ToSparse merges the first entry of a row into the previous row.',
  demo='''
    LilMatrix<double> lil(2, 3);
    lil.Add(0, 1, 2.0);
    lil.Add(1, 1, 3.0);
    SparseMatrix<double> A = lil.ToSparse();
    CHECK(A.nnz() == 2);
    DenseMatrix D = A.ToDense();
    CHECK(near(D(0, 1), 2.0) && near(D(1, 1), 3.0));
''')

S(id='c16-invert-info', property='C16',
  edits=[('src/densematrix.cpp', '''    int lwork = -1;
    double qwork;

    dgetri_(n, A, lda, ipiv.data(), &qwork, &lwork, &info);

    lwork = static_cast<int>(qwork);
    std::vector<double> work(lwork);

    dgetri_(n, A''', '''    int lwork = -1;
    double qwork;

    dgetri_(n, A, lda, ipiv.data(), &qwork, &lwork, &info);

    // The optimal block size never needs more than 32 columns
    lwork = std::min(static_cast<int>(qwork), 32 * 32);
    std::vector<double> work(lwork);

    dgetri_(n, A''')],
  needs='Inverting a matrix with more than 1024 rows (the kernel needs at least n workspace).',
  breaks='The kernel is called with less workspace than it requires, so the inverse is not computed.',
  demo='''
    const int n = 1030;
    DenseMatrix A(n, n);
    A = 0.0;
    for (int i = 0; i < n; ++i) { A(i, i) = 2.0 + i % 3; }
    DenseMatrix inv;
    A.Invert(inv);
    for (int i = 0; i < n; ++i) { CHECK(near(inv(i, i), 1.0 / (2.0 + i % 3))); }
''')

S(id='c19-block-empty-row', property='C19',
  edits=[('include/blockmatrix.hpp', '''                    const int col = offset + mat_indices[jj];

                    output[col] += mat_data[jj] * input[row];
                }
            }

            local_row++;''', '''                    const int col = offset + mat_indices[jj];

                    output[col] += mat_data[jj] * input[row];
                }

                if (j + 1 == col_size - 1)
                {
                    local_row++;
                }
            }
''')],
  needs='MultAT of a block matrix one of whose row blocks has at least two rows and an unset block in its last block column.',
  breaks='The local row stops advancing when the last block of the row is unset, so the first row is used again.',
  demo='''
    BlockMatrix<double> B(std::vector<int>{0, 2}, std::vector<int>{0, 2, 3});
    B.SetBlock(0, 0, SparseMatrix<double>(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{3, 5}, 2, 2));
    Vector<double> x(2, 1.0);
    Vector<double> y(3, -1.0);
    B.MultAT(x, y);
    CHECK(near(y[0], 3) && near(y[1], 5) && near(y[2], 0));
''')

S(id='c20-stale-rows', property='C20',
  edits=[('src/blockoperator.cpp', '''    x_ = input;
    y_ = 0.0;
''', '''    x_ = input;
'''), ('src/blockoperator.cpp', '''            if (op)
            {
                op->Mult(x_.GetBlock(j), tmp_);
                row_y += tmp_;
            }''', '''            if (op)
            {
                op->Mult(x_.GetBlock(j), tmp_);

                if (first)
                {
                    row_y = 0.0;
                    first = false;
                }

                row_y += tmp_;
            }'''), ('src/blockoperator.cpp', '''        tmp_.SetSize(row_y.size());
''', '''        tmp_.SetSize(row_y.size());
        bool first = true;
''')],
  needs='A block row without any block set, and a product with the transpose before the product.',
  breaks='The rows of the empty block row return the input of the earlier transposed product instead of zero.',
  demo='''
    SparseMatrix<double> I2(std::vector<double>{2.0, 3.0});
    BlockOperator op(std::vector<int>{0, 2, 3});
    op.SetBlock(0, 0, I2);
    Vector<double> x(3, 1.0);
    Vector<double> y(3, 0.0);
    op.MultAT(x, y);
    op.Mult(x, y);
    CHECK(near(y[0], 2) && near(y[1], 3) && near(y[2], 0));
''')

S(id='c22-symmetric-zero-row', property='C22',
  edits=[('include/parser.hpp', '''    while (file >> i >> j >> val)
    {
        coo.Add(i, j, val);

        if (symmetric && i != j)''', '''    while (file >> i >> j >> val)
    {
        coo.Add(i, j, val);

        if (symmetric && i < j)''')],
  needs='Reading a symmetric coordinate list that stores the lower triangle.',
  breaks='Entries below the diagonal are not mirrored although the file is read as symmetric.',
  demo='''
    { std::ofstream f("lower.txt"); f << "0 0 2\\n1 0 -1\\n1 1 2\\n"; }
    SparseMatrix<double> A = ReadCooList("lower.txt", true);
    DenseMatrix D = A.ToDense();
    CHECK(near(D(0, 1), -1.0) && near(D(1, 0), -1.0) && near(D(0, 0), 2.0));
''')

S(id='c24-second-solve', property='C24',
  edits=[('src/solvers.cpp', '''    num_iter_ = 0;

    if ((*Dot_)(z_, r_) <= tol_tol)''', '''    if ((*Dot_)(z_, r_) <= tol_tol)'''),
         ('src/solvers.cpp', '''    p_ = z_;

    const double r0''', '''    p_ = z_;

    num_iter_ = M_ ? 0 : std::min(num_iter_, max_iter_ - 1);

    const double r0''')],
  needs='Two solves with the same unpreconditioned PCGSolver; the second starts counting where the first ended.',
  breaks='The iteration budget of the second solve is what the first left over, so it stops early without having converged (and reports the wrong count).',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 5, 7}, std::vector<int>{0, 1, 0, 1, 2, 1, 2},
                           std::vector<double>{2, -1, -1, 2, -1, -1, 2}, 3, 3);
    PCGSolver cg(A, 4, 1e-12, 1e-14);
    for (int pass = 0; pass < 2; ++pass)
    {
        Vector<double> b(3, 1.0); b[1] = -2.0 - pass; b[2] = 4.0;
        Vector<double> x(3, 0.0);
        cg.Mult(b, x);
        Vector<double> r = A.Mult(x);
        r -= b;
        CHECK(L2Norm(r) < 1e-8);
        CHECK(cg.GetNumIterations() <= 3);
    }
''')
