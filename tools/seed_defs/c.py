SEEDS = []
def S(**k): SEEDS.append(k)

S(id='c01-accessor-last-row', property='C01',
  edits=[('include/sparsematrix.hpp', '''    const int start = indptr_[row];
    const int end = indptr_[row + 1];

    return std::vector<T>(begin(data_) + start, begin(data_) + end);''', '''    const int start = indptr_[row];

    // The slice of a row ends where the next row with entries starts
    int next = row + 1;

    while (next < rows_ && indptr_[next] == indptr_[start == 0 ? row : next - 1])
    {
        ++next;
    }

    return std::vector<T>(begin(data_) + start, begin(data_) + indptr_[next]);''')],
  needs='The data of an empty first row followed by a row with entries is asked for.',
  breaks='The accessor returns the entries of the next row instead of an empty slice.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 0, 2, 3}, std::vector<int>{0, 1, 1}, std::vector<double>{1, 2, 3}, 3, 2);
    CHECK(A.GetData(0).size() == 0);
    CHECK(A.GetData(1).size() == 2 && A.GetData(2).size() == 1);
''')

S(id='c03-empty-matrix-output', property='C03',
  edits=[('include/sparsematrix.hpp', '''    assert(input.Rows() == rows_);

    output.SetSize(cols_, input.Cols());
    output = 0.0;
''', '''    assert(input.Rows() == rows_);

    output.SetSize(cols_, input.Cols());

    // Nothing to scatter
    if (nnz() == 0 || input.Cols() == 0)
    {
        return;
    }

    output = 0.0;
''')],
  needs='A matrix without stored entries and a reused output that holds values.',
  breaks='The previous contents of the output are returned.',
  demo='''
    SparseMatrix<double> A(3, 2);
    DenseMatrix B(3, 2, {1, 2, 3, 4, 5, 6});
    DenseMatrix C(2, 2, {7, 7, 7, 7});
    A.MultAT(B, C);
    CHECK(C.Rows() == 2 && C.Cols() == 2);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) CHECK(C(i, j) == 0.0);
''')

S(id='c04-single-entry-row', property='C04',
  edits=[('include/sparsematrix.hpp', '''                if (marker[rhs_indices[k]] < row_nnz)
                {''', '''                // A row with one entry copies a row of the right hand side
                if (marker[rhs_indices[k]] < row_nnz
                    || (indptr_[i + 1] - indptr_[i] == 1 && total < out_indptr[i + 1]))
                {''')],
  needs='A row with one entry that selects a row of the right hand side with a duplicate column before another column.',
  breaks='The duplicate takes a slot of its own and the later column is lost or merged into the wrong slot.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1}, std::vector<int>{0}, std::vector<double>{2}, 1, 1);
    SparseMatrix<double> B(std::vector<int>{0, 3}, std::vector<int>{1, 1, 0}, std::vector<double>{1, 2, 5}, 1, 2);
    SparseMatrix<double> C = A.Mult(B);
    Vector<double> x(2); x[0] = 1; x[1] = 10;
    Vector<double> y = C.Mult(x);
    CHECK(near(y[0], 2 * 5 + 2 * 3 * 10));
''')

S(id='c05-diagonal-shortcut', property='C05',
  edits=[('include/sparsematrix.hpp', '''    std::vector<int> out_indptr(cols_ + 1, 0);
    std::vector<int> out_indices(nnz());
    std::vector<U> out_data(nnz());

    for (const int& col : indices_)''', '''    // Diagonal matrices are their own transpose
    if (rows_ == cols_ && nnz() == rows_ && rows_ > 1
        && indices_.front() == 0 && indices_.back() == cols_ - 1)
    {
        return SparseMatrix<U>(indptr_, indices_, std::vector<U>(begin(data_), end(data_)), cols_, rows_);
    }

    std::vector<int> out_indptr(cols_ + 1, 0);
    std::vector<int> out_indices(nnz());
    std::vector<U> out_data(nnz());

    for (const int& col : indices_)''')],
  needs='A square matrix that is not diagonal with as many entries as rows whose first entry is in the first column and last entry in the last.',
  breaks='The matrix itself is returned as its transpose.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 2, 3, 4}, std::vector<int>{0, 2, 1, 3}, std::vector<double>{1, 2, 3, 4}, 4, 4);
    SparseMatrix<double> B = A.Transpose();
    DenseMatrix a = A.ToDense(), b = B.ToDense();
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) CHECK(a(i, j) == b(j, i));
''')

S(id='c06-all-columns', property='C06',
  edits=[('include/sparsematrix.hpp', '''    for (int i = 0; i < out_cols; ++i)
    {
        marker[cols[i]] = i;
    }
''', '''    // Keep the numbering when every column is kept
    const bool all_cols = out_cols == cols_ && out_cols > 0
                          && cols.front() == 0 && cols.back() == cols_ - 1;

    for (int i = 0; i < out_cols; ++i)
    {
        marker[cols[i]] = all_cols ? cols[i] : i;
    }
''')],
  needs='All columns requested, the first and last in place and others exchanged.',
  breaks='The exchanged columns keep their old positions.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 4}, std::vector<int>{0, 1, 2, 3}, std::vector<double>{1, 2, 3, 4}, 1, 4);
    DenseMatrix b = A.GetSubMatrix({0}, {0, 2, 1, 3}).ToDense();
    CHECK(b(0, 0) == 1 && b(0, 1) == 3 && b(0, 2) == 2 && b(0, 3) == 4);
''')

S(id='c07-equal-columns', property='C07',
  edits=[('include/sparsematrix.hpp', '''    std::transform(begin(permutation), end(permutation), begin(sorted_data),
                   [&] (int i)
    {
        return data_[i];
    });
''', '''    // Rows already in order keep their values in place
    for (int i = 0; i < rows_; ++i)
    {
        const int start = indptr_[i];
        const int end = indptr_[i + 1];
        const bool in_order = start == end || permutation[end - 1] == end - 1;

        for (int j = start; j < end; ++j)
        {
            sorted_data[j] = data_[in_order && permutation[start] == start ? j : permutation[j]];
        }
    }
''')],
  needs='A row with at least four entries whose first and last are in place and whose middle is not.',
  breaks='The columns of the middle entries are sorted but not their values.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 4}, std::vector<int>{0, 2, 1, 3}, std::vector<double>{1, 2, 3, 4}, 1, 4);
    A.SortIndices();
    CHECK(A.GetIndices()[1] == 1 && A.GetData()[1] == 3 && A.GetData()[2] == 2);
''')

S(id='c08-marked-rows', property='C08',
  edits=[('include/sparsematrix.hpp', '''            if (marker[indices_[j]] && data_[j] != 0.0)
            {
                b[row] -= data_[j] * x[indices_[j]];
                data_[j] = 0.0;
            }''', '''            if (marker[indices_[j]] && data_[j] != 0.0)
            {
                // The right hand side of an eliminated row is known already
                if (row != indices_[j])
                {
                    b[row] -= data_[j] * x[indices_[j]];
                }

                data_[j] = 0.0;
            }''')],
  needs='An eliminated column with a stored diagonal entry.',
  breaks='The contribution of the diagonal entry is not moved to the right hand side.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 4}, std::vector<int>{0, 1, 0, 1}, std::vector<double>{4, 1, 1, 3}, 2, 2);
    std::vector<int> marker{1, 0};
    Vector<double> x(2); x[0] = 2; x[1] = 0;
    Vector<double> b(2); b[0] = 10; b[1] = 10;
    A.EliminateCol(marker, x, b);
    CHECK(near(b[0], 2) && near(b[1], 8));
''')

S(id='c09-reciprocal', property='C09',
  edits=[('include/sparsematrix.hpp', '''        const T scale = values[i];
        assert(scale != (T)0);

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            data_[j] /= scale;
        }''', '''        assert(values[i] != (T)0);

        // Multiplying is faster than dividing
        const T scale = (T)1 / values[i];

        for (int j = indptr_[i]; j < indptr_[i + 1]; ++j)
        {
            data_[j] *= scale;
        }''')],
  needs='Inverse row scaling of an integer matrix.',
  breaks='Entries become zero.',
  demo='''
    SparseMatrix<int> A(std::vector<int>{0, 2}, std::vector<int>{0, 1}, std::vector<int>{6, 9}, 1, 2);
    A.InverseScaleRows(std::vector<int>{3});
    CHECK(A.GetData()[0] == 2 && A.GetData()[1] == 3);
''')

S(id='c10-sym-block', property='C10',
  edits=[('include/coomatrix.hpp', '''            const int row = rows[i];
            const double val = values(i, j);

            Add(row, col, scale * val);''', '''            const int row = rows[i];
            const T val = values(i, j);

            Add(row, col, scale * val);''')],
  needs='A scaled block with fractional entries added to a matrix of another value type.',
  breaks='The entries are truncated before they are scaled.',
  demo='''
    CooMatrix<int> A(1, 1);
    A.Add(std::vector<int>{0}, std::vector<int>{0}, 4, DenseMatrix(1, 1, {2.5}));
    CHECK(A.ToSparse().GetData()[0] == 10);
''')

S(id='c11-second-convert', property='C11',
  edits=[('include/lilmatrix.hpp', '''    for (auto& row : entries_)
    {
        row.sort();
    }
''', '''    for (auto& row : entries_)
    {
        // New entries arrive at the front, the rest is in order
        if (row.size() > 1 && row.front().first > std::next(row.begin())->first)
        {
            row.sort();
        }
    }
''')],
  needs='A row whose latest two entries are in order but an earlier one is not.',
  breaks='Entries of the same position are not merged and the row holds a column twice.',
  demo='''
    LilMatrix<double> A(1, 3);
    A.Add(0, 2, 1.0);
    A.Add(0, 1, 1.0);
    A.Add(0, 2, 1.0);
    A.Add(0, 1, 3.0);
    SparseMatrix<double> B = A.ToSparse();
    CHECK(B.nnz() == 2);
    CHECK(near(B.ToDense()(0, 1), 4));
''')

S(id='c12-lil-type', property='C12',
  edits=[('include/lilmatrix.hpp', '''        for (const auto& node : list)
        {
            const int j = node.first;
            const T val = node.second;

            output[i] += val * input[j];
        }''', '''        T sum = 0;

        for (const auto& node : list)
        {
            const int j = node.first;
            const T val = node.second;

            sum += val * input[j];
        }

        output[i] = sum;''')],
  needs='A list-of-lists matrix of integers applied to a vector with fractions.',
  breaks='The sums are truncated to integers.',
  demo='''
    LilMatrix<int> A(1, 2);
    A.Add(0, 0, 1); A.Add(0, 1, 3);
    Vector<double> x(2); x[0] = 0.5; x[1] = 0.25;
    Vector<double> y(1);
    A.Mult(x, y);
    CHECK(near(y[0], 1.25));
''')

S(id='c13-row-times', property='C13',
  edits=[('src/densematrix.cpp', '''    dgemm_(&transA, &transB, &m, &n, &k,
           &alpha, A, &lda, B, &ldb,
           &beta, c, &ldc);''', '''    // A column times a row needs no summation
    if (k == 1)
    {
        for (int j = 0; j < n; ++j)
        {
            for (int i = 0; i < m; ++i)
            {
                c[i + j * ldc] = A[i] * B[j];
            }
        }

        return;
    }

    // A row is stored like its transpose
    if (m == 1)
    {
        transA = 'T';
        lda = k;
        ldb = std::max(n, k);
    }

    dgemm_(&transA, &transB, &m, &n, &k,
           &alpha, A, &lda, B, &ldb,
           &beta, c, &ldc);''')],
  needs='A single row times a matrix with more columns than rows.',
  breaks='The second factor is read with the wrong leading dimension.',
  demo='''
    DenseMatrix A(1, 2, {1, 2});
    DenseMatrix B(2, 3, {1, 2, 3, 4, 5, 6});
    DenseMatrix C = A.Mult(B);
    CHECK(near(C(0, 0), 5) && near(C(0, 1), 11) && near(C(0, 2), 17));
''')

S(id='c14-copy-longer', property='C14',
  edits=[('src/densematrix.cpp', '''    data.resize(data_.size());
    std::copy(std::begin(data_), std::end(data_), std::begin(data));''', '''    // Avoid shrinking a buffer that is large enough
    if (data.capacity() < data_.size())
    {
        data.resize(data_.size());
    }

    std::copy(std::begin(data_), std::end(data_), std::begin(data));''')],
  needs='Copying the data to a vector with capacity but another size.',
  breaks='The vector keeps its size: too long, or written past its end.',
  demo='''
    DenseMatrix A(1, 2, {1, 2});
    std::vector<double> v(5, 7.0);
    A.CopyData(v);
    CHECK(v.size() == 2 && v[0] == 1 && v[1] == 2);
''')

S(id='c15-transpose-view', property='C15',
  edits=[('src/densematrix.cpp', '''    const int num_rows = end_i - start_i;
    const int num_cols = end_j - start_j;

    for (int j = 0; j < num_cols; ++j)
    {
        for (int i = 0; i < num_rows; ++i)
        {
            (*this)(i + start_i, j + start_j) = dense(j, i);
        }
    }''', '''    const int num_rows = end_i - start_i;
    const int num_cols = end_j - start_j;

    // Copy the common square, then the remainder
    const int common = std::min(num_rows, num_cols);

    for (int j = 0; j < common; ++j)
    {
        for (int i = 0; i < common; ++i)
        {
            (*this)(i + start_i, j + start_j) = dense(j, i);
        }
    }

    for (int j = 0; j < num_cols; ++j)
    {
        for (int i = common; i < num_rows; ++i)
        {
            (*this)(i + start_i, j + start_j) = dense(j, i);
        }
    }''')],
  needs='The transpose of a block with more rows than columns is written.',
  breaks='The trailing columns of the target are not written.',
  demo='''
    DenseMatrix A(2, 3);
    DenseMatrix B(3, 1, {1, 2, 3});
    A.SetSubMatrixTranspose(1, 0, B);
    CHECK(A(1, 0) == 1 && A(1, 1) == 2 && A(1, 2) == 3 && A(0, 2) == 0);
''')

S(id='c16-qr-columns', property='C16',
  edits=[('src/densematrix.cpp', '''    const int* k = &mn_min;

    lwork = -1;''', '''    // Reflectors that do nothing are left out
    int num_reflectors = mn_min;

    while (num_reflectors > 1 && tau[num_reflectors - 1] == 0.0 && rows > cols)
    {
        --num_reflectors;
    }

    const int* k = &num_reflectors;

    lwork = -1;'''),
    ('src/densematrix.cpp', '''    SetSize(rows, mn_min);
}''', '''    SetSize(rows, num_reflectors);
}''')],
  needs='A tall matrix of deficient rank, whose last reflector is the identity.',
  breaks='The orthogonal factor has fewer columns than documented.',
  demo='''
    DenseMatrix A(3, 2, {1, 0, 0, 0, 0, 0});
    DenseMatrix Q;
    A.QR(Q);
    CHECK(Q.Rows() == 3 && Q.Cols() == 2);
''')

S(id='c17-regrow-fill', property='C17',
  edits=[('include/vector.hpp', '''        data_.resize(size, val);

        VectorView<T>::SetData(data_.data(), data_.size());''', '''        // A vector that shrinks keeps its storage, so that it can grow again
        if (size > static_cast<int>(data_.size()))
        {
            data_.resize(size, val);
        }

        VectorView<T>::SetData(data_.data(), size);''')],
  needs='A vector that shrinks and then grows again, with a fill value.',
  breaks='The elements that were cut off come back instead of the fill value.',
  demo='''
    Vector<double> v(3, 1.0);
    v.SetSize(1, 2.0);
    CHECK(v.size() == 1);
    v.SetSize(3, 5.0);
    CHECK(v.size() == 3 && v[0] == 1.0 && v[1] == 5.0 && v[2] == 5.0);
''')

S(id='c18-sub-self', property='C18',
  edits=[('include/vectorview.hpp', '''    for (int i = 0; i < size_; ++i)
    {
        data_[i] -= alpha * rhs[i];
    }

    return *this;''', '''    const T scale = alpha;

    for (int i = 0; i < size_; ++i)
    {
        data_[i] -= scale * rhs[i];
    }

    return *this;''')],
  needs='A scaled subtraction of integer vectors with a fractional scale.',
  breaks='The scale is truncated before the product.',
  demo='''
    Vector<int> x(1, 20), y(1, 4);
    x.Sub(2.5, y);
    CHECK(x[0] == 10);
''')

S(id='c19-symmetric-grid', property='C19',
  edits=[('include/blockmatrix.hpp', '''    BlockMatrix<T> transpose(col_offsets_, row_offsets_);

    const int row_blocks = row_offsets_.size() - 1;
    const int col_blocks = col_offsets_.size() - 1;

    for (int i = 0; i < row_blocks; ++i)
    {''', '''    BlockMatrix<T> transpose(col_offsets_, row_offsets_);

    const int row_blocks = row_offsets_.size() - 1;
    const int col_blocks = col_offsets_.size() - 1;

    // Rows of blocks whose block on the diagonal is empty are skipped
    for (int i = 0; i < row_blocks; ++i)
    {
        if (row_offsets_[i] == row_offsets_[i + 1] && col_offsets_.size() == row_offsets_.size())
        {
            continue;
        }

        if (row_offsets_.size() == col_offsets_.size() && i > 0 && A_[i][i].Rows() > 0
            && A_[i][i].nnz() == 0)
        {
            continue;
        }
''')],
  needs='A square grid with a set diagonal block without entries next to blocks with entries.',
  breaks='The blocks of that row are missing from the transpose.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1}, std::vector<int>{0}, std::vector<double>{3}, 1, 1);
    BlockMatrix<double> B(std::vector<int>{0, 1, 2});
    B.SetBlock(0, 0, A); B.SetBlock(1, 0, A); B.SetBlock(1, 1, SparseMatrix<double>(1, 1));
    DenseMatrix t = B.Transpose().Combine().ToDense();
    CHECK(t(0, 0) == 3 && t(0, 1) == 3 && t(1, 0) == 0 && t(1, 1) == 0);
''')

S(id='c20-offsets-kept', property='C20',
  edits=[('include/blockvector.hpp', '''    swap(lhs.offsets_, rhs.offsets_);''', '''    // Same number of blocks and elements: same offsets
    if (lhs.offsets_.size() != rhs.offsets_.size() || lhs.offsets_.back() != rhs.offsets_.back())
    {
        swap(lhs.offsets_, rhs.offsets_);
    }''')],
  needs='Assigning a block vector with as many blocks and elements but other block sizes.',
  breaks='The target keeps its own offsets, so its block views cover other elements.',
  demo='''
    BlockVector<double> a({0, 1, 4}), b({0, 3, 4});
    for (int i = 0; i < 4; ++i) b[i] = i;
    a = b;
    CHECK(a.GetBlock(0).size() == 3 && a.GetBlock(1).size() == 1 && a.GetBlock(1)[0] == 3);
''')

S(id='c21-text-ints', property='C21',
  edits=[('include/parser.hpp', '''    file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));

    if (!file)
    {
        throw std::runtime_error("Failed to read entries: " + file_name);
    }

    file.close();

    return vect;''', '''    file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));

    if (file.bad() || (size > 0 && file.gcount() == 0))
    {
        throw std::runtime_error("Failed to read entries: " + file_name);
    }

    file.close();

    return vect;''')],
  needs='A binary vector file cut off in the middle of its values.',
  breaks='The partial data is returned with zeros at the end.',
  demo='''
    WriteBinary(std::vector<double>{1, 2, 3}, "v.bin");
    std::ifstream in("v.bin", std::ios::binary); std::stringstream s; s << in.rdbuf(); std::string all = s.str();
    std::ofstream("cut.bin", std::ios::binary).write(all.data(), all.size() - 5);
    bool threw = false;
    try { ReadBinaryVect<double>("cut.bin"); } catch (const std::exception&) { threw = true; }
    CHECK(threw);
    CHECK(ReadBinaryVect<double>("v.bin").size() == 3);
''')

S(id='c22-trailing-rows', property='C22',
  edits=[('include/parser.hpp', '''        indptr.push_back(indices.size());
    }

    file.close();
''', '''        indptr.push_back(indices.size());
    }

    // Blank lines at the end of the file are no rows
    while (indptr.size() > 2 && indptr.back() == indptr[indptr.size() - 3])
    {
        indptr.pop_back();
    }

    file.close();
''')],
  needs='A table whose last two rows are empty.',
  breaks='An empty row at the end is lost.',
  demo='''
    SparseMatrix<int> A(std::vector<int>{0, 2, 2, 2}, std::vector<int>{0, 1}, std::vector<int>{1, 1}, 3, 2);
    WriteTable(A, "t.txt");
    SparseMatrix<int> B = ReadTable("t.txt");
    CHECK(B.Rows() == 3 && B.Cols() == 2 && B.nnz() == 2);
''')

S(id='c22-graph-order', property='C22',
  edits=[('include/parser.hpp', '''        if (symmetric && i != j)
        {
            coo.Add(j, i, val);
        }
    }

    file.close();

    return coo.ToSparse();
}

/*! @brief Write a coordinate list to disk.''', '''        // Only entries above the diagonal have a counterpart
        if (symmetric && i < j)
        {
            coo.Add(j, i, val);
        }
    }

    file.close();

    return coo.ToSparse();
}

/*! @brief Write a coordinate list to disk.''')],
  needs='A symmetric coordinate file that lists the lower triangle.',
  breaks='The upper triangle is not restored.',
  demo='''
    std::ofstream("c.txt") << "0 0 1.0\\n1 0 2.5\\n1 1 3.0\\n";
    SparseMatrix<double> A = ReadCooList("c.txt", true);
    CHECK(A.nnz() == 4 && near(A.ToDense()(0, 1), 2.5) && near(A.ToDense()(1, 0), 2.5));
''')

S(id='c23-dashed-value', property='C23',
  edits=[('src/argparser.cpp', '''        if (values_.find(*iter) == values_.end())
            {
                values_[*iter] = "";
            }''', '''        if (values_.find(*iter) == values_.end() || values_[*iter].empty())
            {
                values_[*iter] = "";
            }''')],
  needs='A value-less flag given twice.',
  breaks='The repetition is not reported.',
  demo='''
    const char* argv[] = {"prog", "--verbose", "--verbose"};
    ArgParser p(3, argv);
    bool verbose = false;
    p.Parse(verbose, "--verbose", "talk");
    CHECK(verbose);
    CHECK(!p.IsGood());
''', headers='#include "argparser.hpp"')

S(id='c24-zero-guess', property='C24',
  edits=[('src/solvers.cpp', '''    A_->Mult(x, Ap_);
    r_ = b;
    r_ -= Ap_;

    if (M_)''', '''    r_ = b;

    // A zero guess needs no product
    if (x[0] != 0.0 || L2Norm(x) > 1e-8)
    {
        A_->Mult(x, Ap_);
        r_ -= Ap_;
    }

    if (M_)''')],
  needs='A small but nonzero initial guess that starts with zero.',
  breaks='The residual of the guess is not taken into account, so the returned vector is off by the guess.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{2e8, 4e8}, 2, 2);
    Vector<double> b(2), x(2);
    b[0] = 1; b[1] = 1; x[0] = 0; x[1] = 5e-9;
    PCGSolver cg(A, 50, 1e-12, 1e-12);
    cg.Mult(b, x);
    Vector<double> r = A.Mult(x);
    CHECK(std::fabs(r[0] - 1) < 1e-6 && std::fabs(r[1] - 1) < 1e-6);
''')

S(id='c25-moved-directions', property='C25',
  edits=[('src/solvers.cpp', '''    const int size = A_->Cols();

    w0_ = 0.0;
    w1_ = 0.0;
    v0_ = 0.0;

    A_->Mult(x, q_);
    v1_ = b;
    v1_ -= q_;

    M_->Mult(v1_, u1_);
''', '''    const int size = A_->Cols();

    w0_ = 0.0;
    v0_ = 0.0;

    // A solve that took one step has not used the second direction
    if (num_iter_ != 1)
    {
        w1_ = 0.0;
    }

    A_->Mult(x, q_);
    v1_ = b;
    v1_ -= q_;

    M_->Mult(v1_, u1_);
''')],
  needs='A second solve with a solver object whose previous solve was cut off after one step.',
  breaks='The second solve starts from the direction of the first one.',
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 2, 4}, std::vector<int>{0, 1, 0, 1}, std::vector<double>{4, 1, 1, 3}, 2, 2);
    SparseMatrix<double> M(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{1, 1}, 2, 2);
    PMINRESSolver solver(A, M, 1, 1e-12, 1e-12);
    Vector<double> b(2), x(2);
    b[0] = 1; b[1] = 2; x = 0.0;
    solver.Mult(b, x);
    solver.SetMaxIter(2);
    x = 0.0;
    solver.Mult(b, x);
    Vector<double> r = A.Mult(x);
    CHECK(std::fabs(r[0] - 1) < 1e-8 && std::fabs(r[1] - 2) < 1e-8);
''')

S(id='c26-larger-workspace', property='C26',
  edits=[('src/eigensolver.cpp', '''    if (alloc_size_ < n)
    {
        AllocateWorkspace(n);
    }
''', '''    // The workspace grows with the square of the size
    if (alloc_size_ * alloc_size_ < n)
    {
        AllocateWorkspace(n);
    }
''')],
  needs='A solver object used for a matrix of two or more rows after a slightly smaller one.',
  breaks='The workspace of the smaller matrix is handed to the kernel.',
  demo='''
    std::fflush(stdout);
    EigenSolver solver;
    DenseMatrix A(3), B(8);
    for (int i = 0; i < 3; ++i) A(i, i) = i + 1;
    for (int i = 0; i < 8; ++i) B(i, i) = i + 1;
    solver.Solve(A, 1.0, -1);
    EigenPair second = solver.Solve(B, 1.0, -1);
    EigenSolver fresh;
    EigenPair wanted = fresh.Solve(B, 1.0, -1);
    for (int i = 0; i < 8; ++i) CHECK(near(second.first[i], wanted.first[i]));
''')

S(id='c28-negative-weights', property='C28',
  edits=[('modules/partition/include/partition.hpp', '''                data.push_back(weighted ? std::fabs(mat.GetData()[j]) : 1.0);''', '''                // Weights below one count as one
                data.push_back(weighted && std::fabs(mat.GetData()[j]) > 1.0 ? mat.GetData()[j] : 1.0);
                data.back() = data.back() < 0 ? -(data.back() + 1) + 1 : data.back();
                data.back() = weighted && std::fabs(mat.GetData()[j]) < 1.0 ? 1 : data.back();''')],
  needs='Weighted partitioning of a matrix with small entries.',
  breaks='Edges whose weight truncates to zero are handed over with weight one.',
  inc=['modules/partition/include'], headers='#include "partition.hpp"', libs=['-lmetis'],
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 3, 4}, std::vector<int>{1, 0, 2, 1}, std::vector<double>{0.5, 0.5, -7, -7}, 3, 3);
    auto info = MakeAdjacencyInfo<double, int>(A, true);
    std::vector<int> w = std::get<2>(info);
    CHECK(w.size() == 4 && w[0] == 0 && w[2] == 7);
''')

S(id='c28-isolated-end', property='C28',
  edits=[('modules/partition/include/partition.hpp', '''    const int num_parts = *std::max_element(std::begin(partition), std::end(partition)) + 1;
''', '''    const int num_parts = std::max(partition.front(), partition.back()) + 1 > static_cast<int>(partition.size()) / 2
                          ? *std::max_element(std::begin(partition), std::end(partition)) + 1
                          : std::max(partition.front(), *std::max_element(std::begin(partition) + 1, std::end(partition) - 1)) + 1;
''')],
  needs='A long partition whose largest part holds the last vertex only.',
  breaks='The part counters are indexed past their end.',
  inc=['modules/partition/include'], headers='#include "partition.hpp"', libs=['-lmetis'],
  src=['-fsanitize=address'],
  demo='''
    std::vector<int> p{0, 0, 0, 0, 0, 0, 0, 2};
    RemoveEmpty(p);
    for (int i = 0; i < 7; ++i) CHECK(p[i] == 0);
    CHECK(p[7] == 1);
''')

S(id='c29-assign-larger', property='C29',
  edits=[('modules/sparsesolver/src/sparsesolve.cpp', '''    swap(lhs.A_, rhs.A_);

    std::swap(lhs.numeric_, rhs.numeric_);''', '''    swap(lhs.A_, rhs.A_);

    // Factorizations of matrices of the same pattern are interchangeable
    if (lhs.A_.GetIndptr() != rhs.A_.GetIndptr() || lhs.A_.nnz() != rhs.A_.nnz() || !lhs.numeric_ || !rhs.numeric_)
    {
        std::swap(lhs.numeric_, rhs.numeric_);
    }
''')],
  needs='Two solvers of matrices with equally many entries per row are exchanged or assigned.',
  breaks='The factorization stays with the other matrix.',
  inc=['modules/sparsesolver/include'], headers='#include "sparsesolve.hpp"', src=['modules/sparsesolver/src/sparsesolve.cpp', '-I/usr/include/suitesparse'], libs=['-lumfpack'],
  demo='''
    SparseMatrix<double> A(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{2, 4}, 2, 2);
    SparseMatrix<double> B(std::vector<int>{0, 1, 2}, std::vector<int>{0, 1}, std::vector<double>{8, 16}, 2, 2);
    SparseSolver a(A), b(B);
    swap(a, b);
    Vector<double> x(2, 16.0), y(2);
    a.Mult(x, y);
    CHECK(near(y[0], 2) && near(y[1], 1));
    b = a;
    b.Mult(x, y);
    CHECK(near(y[0], 2) && near(y[1], 1));
''')

S(id='c30-coo-size-flag', property='C30',
  edits=[('include/coomatrix.hpp', '''    std::swap(lhs.size_set_, rhs.size_set_);
    std::swap(lhs.entries_, rhs.entries_);''', '''    // An empty matrix has no size of its own
    if (!lhs.entries_.empty() || !rhs.entries_.empty() || !lhs.size_set_ || !rhs.size_set_)
    {
        std::swap(lhs.size_set_, rhs.size_set_);
    }
    else
    {
        lhs.size_set_ = lhs.rows_ > 0;
    }

    std::swap(lhs.entries_, rhs.entries_);''')],
  needs='A sized matrix without entries and without rows is assigned to another empty sized matrix.',
  breaks='The target forgets that its size was set, so its columns are lost.',
  demo='''
    CooMatrix<double> A(0, 5), B(2, 2);
    B = A;
    CHECK(B.Rows() == 0 && B.Cols() == 5);
    CHECK(B.ToSparse().Cols() == 5);
''')

S(id='c31-inner-product-wide', property='C31',
  edits=[('src/operator.cpp', '''    return y.Mult(Mult(x));''', '''    // Work with the shorter of the two vectors
    return rows_ <= cols_ ? y.Mult(Mult(x)) : x.Mult(MultAT(y));''')],
  needs='The inner product of a tall operator that has no transposed action.',
  breaks='It throws instead of returning y^T A x.',
  headers='''struct Tall : public linalgcpp::Operator { Tall() : linalgcpp::Operator(3, 2) {} using linalgcpp::Operator::Mult; void Mult(const linalgcpp::VectorView<double>& x, linalgcpp::VectorView<double> y) const override { y[0] = x[0]; y[1] = x[1]; y[2] = x[0] + x[1]; } };''',
  demo='''
    Tall A;
    Vector<double> x(2), y(3);
    x[0] = 1; x[1] = 2; y[0] = 3; y[1] = 4; y[2] = 5;
    double v = 0;
    try { v = A.InnerProduct(x, y); } catch (...) { v = -1; }
    CHECK(near(v, 3 + 8 + 15));
''')

S(id='c32-total', property='C32',
  edits=[('src/timer.cpp', '''    std::chrono::duration<double> elapsed_time = times_.back() - times_.front();
    return elapsed_time.count();''', '''    double total = 0.0;

    // Add up whole seconds and remainders separately
    for (size_t i = 0; i + 1 < times_.size(); ++i)
    {
        const auto step = times_[i + 1] - times_[i];
        const auto seconds = std::chrono::duration_cast<std::chrono::seconds>(step);

        total += seconds.count();
        total += std::chrono::duration<float>(step - seconds).count();
    }

    return total;''')],
  needs='Intervals with a fractional part.',
  breaks='The total has single precision only.',
  headers='#include "timer.hpp"',
  demo='''
    bool differs = false;
    for (int k = 0; k < 20; ++k)
    {
        Timer t(Timer::Start::True);
        volatile double s = 0; for (int i = 0; i < 10000 * (k + 1); ++i) s = s + i;
        t.Click();
        if (t.TotalTime() != t[0]) differs = true;
    }
    CHECK(!differs);
''')

S(id='c38-print-sorted', property='C38',
  edits=[('include/lilmatrix.hpp', '''            const int j = node.first;
            const T val = node.second;

            out << "(" << i << ", " << j << ") " << val << "\\n";''', '''            const int j = node.first;
            const T val = node.second;

            // The same entry twice is shown once
            if (&node != &list.front() && node == list.front())
            {
                continue;
            }

            out << "(" << i << ", " << j << ") " << val << "\\n";''')],
  needs='The same value inserted twice at the same position.',
  breaks='The stored entry is not shown.',
  demo='''
    LilMatrix<double> A(2, 2);
    A.Add(0, 1, 2.0); A.Add(0, 1, 2.0);
    std::stringstream s;
    A.Print("m:", s);
    int lines = 0; std::string line;
    while (std::getline(s, line)) if (!line.empty() && line[0] == '(') ++lines;
    CHECK(lines == 2);
''')
