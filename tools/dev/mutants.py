"""Planted changes used while developing the checks (no check reads this).
Each: id, properties whose checks should notice, file under /repo, [(old, new)...]."""
I = "include/nudb/"
MUT = []
def M(id, props, file, *edits):
    MUT.append((id, props.split(), file, edits))

BS, CX, RC, RK, VF, VI, CR, PF = [I + "impl/" + x for x in ("basic_store.ipp", "context.ipp", "recover.ipp", "rekey.ipp", "verify.ipp", "visit.ipp", "create.ipp", "posix_file.ipp")]
GT, BK, AR, CA, PO, BI, FM, XX, FD, BU, ST = [I + "detail/" + x for x in ("gentex.hpp", "bucket.hpp", "arena.hpp", "cache.hpp", "pool.hpp", "bulkio.hpp", "format.hpp", "xxhash.hpp", "field.hpp", "buffer.hpp", "stream.hpp")]
CLI = "tools/nudb.cpp"

# C01
M("c01-unlock-before-gen", "C01", BS, ("""    genlock<gentex> g{g_};
    m.unlock();
    buffer buf{s_->kh.block_size};
    // b constructs""", """    m.unlock();
    genlock<gentex> g{g_};
    buffer buf{s_->kh.block_size};
    // b constructs"""))
M("c01-insert-unlock-before-gen", "C01", BS, ("""            genlock<gentex> g{g_};
            m.unlock();
            buffer buf;""", """            m.unlock();
            genlock<gentex> g{g_};
            buffer buf;"""))
M("c01-insert-late-mutex", "C01", BS, ("""    std::lock_guard<std::mutex> u{u_};
    {
        shared_lock_type m{m_};
        if(s_->p1""", """    {
        shared_lock_type m{m_};
        if(s_->p1"""), ("""    // Perform insert
    unique_lock_type""", """    // Perform insert
    std::lock_guard<std::mutex> u{u_};
    unique_lock_type"""))
M("c01-publish-two-steps", "C01 C19", BS, ("""    swap(c1, s_->c1);
    s_->p0.clear();
    buckets_ = buckets;""", """    s_->p0.clear();
    m.unlock();
    m.lock();
    swap(c1, s_->c1);
    buckets_ = buckets;"""))
M("c01-gen-start-late", "C01", BS, ("""    modulus_ = modulus;
    g_.start();
    m.unlock();""", """    modulus_ = modulus;
    m.unlock();
    g_.start();"""))
M("c01-finish-late", "C01", BS, ("""    g_.finish();
    // Write new""", """    // Write new"""), ("""    // Finalize the commit
""", """    g_.finish();
    // Finalize the commit
"""))
M("c01-unlock-gen-swapped", "C01", GT, ("""    if(gen == gen_)
    {
        --cur_;""", """    if(gen == gen_ || cur_ > prev_)
    {
        --cur_;"""))
M("c01-p0-before-p1-window", "C01", BS, ("""    swap(s_->p0, s_->p1);
    m.unlock();
    work =""", """    m.unlock();
    swap(s_->p0, s_->p1);
    work ="""))
M("c01-insert-skips-p0", "C01 C03", BS, ("""        if(s_->p1.find(key) != s_->p1.end() ||
           s_->p0.find(key) != s_->p0.end())
        {
            ec = error::key_exists;
            return;
        }
        auto const n""", """        if(s_->p1.find(key) != s_->p1.end())
        {
            ec = error::key_exists;
            return;
        }
        auto const n"""))
M("c01-buckets-published-late", "C01 C19 C02", BS, ("""    buckets_ = buckets;
    modulus_ = modulus;
    g_.start();
    m.unlock();
""", """    g_.start();
    m.unlock();
"""), ("""    s_->c1.clear();
}""", """    buckets_ = buckets;
    modulus_ = modulus;
    s_->c1.clear();
}"""))
# C02
M("c02-exists-early-unlock", "C02 C01", BS, ("""    void* pb = buf.get() + s_->kh.key_size;
    for(;;)""", """    void* pb = buf.get() + s_->kh.key_size;
    if(lock)
        lock->unlock();
    for(;;)"""))
M("c02-fetch-c1-unlocked", "C02 C01", BS, ("""    if(iter != s_->c1.end())
        return fetch(h, key, iter->second, callback, ec);""", """    if(iter != s_->c1.end())
    {
        m.unlock();
        return fetch(h, key, iter->second, callback, ec);
    }"""))
M("c02-when-unlocked", "C02", BS, ("""        unique_lock_type m{m_};
        s_->when = clock_type::now();""", """        s_->when = clock_type::now();
        unique_lock_type m{m_};"""))
M("c02-burst-unlocked", "C02", BS, ("""    detail::unique_lock_type m{m_};
    s_->burst""", """    s_->burst"""))
M("c02-exists-buffer", "C02", BS, ("""    buffer buf{s_->kh.key_size + s_->kh.block_size};
    void* pk = buf.get();
    void* pb = buf.get() + s_->kh.key_size;""", """    buffer buf{s_->kh.block_size};
    void* pk = buf.get();
    void* pb = buf.get();"""))
M("c02-insert-shared-lock", "C02 C01", BS, ("""    // Perform insert
    unique_lock_type m{m_};""", """    // Perform insert
    shared_lock_type m{m_};"""))
M("c02-arena-align", "C02", AR, ("""    n = 8 *((n + 7) / 8);""", """    n = 4 *((n + 3) / 4);"""))
M("c02-periodic-unlocked", "C02", BS, ("""        s_->p1.periodic_activity();
    }
    if(ec_)""", """    }
    s_->p1.periodic_activity();
    if(ec_)"""))
M("c02-bucket-entry-overrun", "C02", BK, ("""    --size_;
    if(i < size_)
        std::memmove(
            p +  i      * w,
            p +(i + 1) * w,
           (size_ - i) * w);""", """    --size_;
    std::memmove(
        p +  i      * w,
        p +(i + 1) * w,
       (size_ - i + 1) * w);"""))
M("c02-callback-after-unlock", "C02 C01", BS, ("""        callback(iter->first.data, iter->first.size);
        return;""", """        m.unlock();
        callback(iter->first.data, iter->first.size);
        return;"""))
# C03
M("c03-fetch-first-collision", "C03", BS, ("""                callback(
                    buf0.get() + s_->kh.key_size, item.size);
                return;
            }""", """                callback(
                    buf0.get() + s_->kh.key_size, item.size);
                return;
            }
            if(i + 1 == b.size())
            {
                ec = error::key_not_found;
                return;
            }"""))
M("c03-exists-first-collision", "C03", BS, ("""            if(std::memcmp(pk, key, s_->kh.key_size) == 0)
                return true;""", """            return std::memcmp(pk, key, s_->kh.key_size) == 0;"""))
M("c03-split-noflush", "C03", BS, ("""            if(spill + bucket_size(s_->kh.capacity) >
               w.offset() - w.size())""", """            if(spill >= w.offset())"""))
M("c03-split-b1-nospill", "C03 C02", BS, ("""                    maybe_spill(b1, w, ec);
                    if(ec)
                        return;
                    b1.insert""", """                    b1.insert"""))
M("c03-writer-reserve-first", "C03 C07", BI, ("""    if(used_ + needed > buf_.size())
    {
        flush(ec);
        if(ec)
            return{};
    }
    if(needed > buf_.size())
        buf_.reserve(needed);""", """    if(needed > buf_.size())
        buf_.reserve(needed);
    if(used_ + needed > buf_.size())
    {
        flush(ec);
        if(ec)
            return{};
    }"""))
M("c03-split-skip-erased", "C03", BS, ("""            b2.insert(e.offset, e.size, e.hash);
            b1.erase(i);
        }""", """            b2.insert(e.offset, e.size, e.hash);
            b1.erase(i);
            if(b1.size() == s_->kh.capacity - 1 && b1.spill())
                ++i;
        }"""))
M("c03-split-empty-trivial", "C03", BS, ("""            spill = tmp.spill();
        }
        while(spill);""", """            spill = tmp.empty() ? 0 : tmp.spill();
            if(b2.spill() && b1.spill())
                break;
        }
        while(spill);"""))
M("c03-close-nocommit-after-flush", "C03", BS, ("""        if(! s_->p1.empty())
        {
            std::size_t work;
            detail::unique_lock_type m{m_};
            commit(m, work, ec_);
            if (ec_)""", """        if(s_->p1.data_size() > s_->kh.key_size)
        {
            std::size_t work;
            detail::unique_lock_type m{m_};
            commit(m, work, ec_);
            if (ec_)"""))
M("c03-reader-grow", "C14 C12 C10", BI, ("""            std::memcpy(buf.get(),
                buf_.get() + used_, avail_);
            buf_ = std::move(buf);""", """            std::memcpy(buf.get(),
                buf_.get(), avail_);
            buf_ = std::move(buf);"""))
M("c03-insert-value-32k", "C03", PO, ("""    auto const d = arena_.alloc(size);""", """    auto const d = arena_.alloc(size & 0xfffff ? size & 0xfffff : size);"""))
M("c03-cache-insert-overwrite", "C03", CA, ("""    auto const p = arena_.alloc(block_size_);
    map_.emplace(n, p);""", """    auto const p = arena_.alloc(block_size_);
    if(! map_.emplace(n, p).second)
        map_.find(n)->second = p;"""))
M("c03-lower-bound-last", "C03", BK, ("""    while(count > 0)
    {
        step = count / 2;""", """    while(count > 0)
    {
        step = (count - 1) / 2;
        if(step == 0 && count == 2 && first + 2 == size_)
            step = 1;"""))
# C04 / C05 / C06
M("c04-no-df-sync", "C04 C05 C06", BS, ("""    s_->df.sync(ec);
    if(ec)
        return;
    s_->kf.sync""", """    s_->kf.sync"""))
M("c04-trunc-before-kf-sync", "C04 C05 C06", BS, ("""    s_->kf.sync(ec);
    if(ec)
        return;
    s_->lf.trunc(0, ec);
    if(ec)
        return;
""", """    s_->lf.trunc(0, ec);
    if(ec)
        return;
    s_->kf.sync(ec);
    if(ec)
        return;
"""))
M("c04-no-final-lf-sync", "C04", BS, ("""    s_->lf.trunc(0, ec);
    if(ec)
        return;
    s_->lf.sync(ec);
    if(ec)
        return;
""", """    s_->lf.trunc(0, ec);
    if(ec)
        return;
"""))
M("c05-no-header-sync", "C06 C05", BS, ("""    // Checkpoint
    s_->lf.sync(ec);
    if(ec)
        return;
""", """    // Checkpoint
"""))
M("c05-no-log-sync", "C06 C05", BS, ("""        c0.clear();
        w.flush(ec);
        if(ec)
            return;
        s_->lf.sync(ec);
        if(ec)
            return;""", """        c0.clear();
        w.flush(ec);
        if(ec)
            return;"""))
M("c05-log-skip-empty", "C05 C06", BS, ("""        for(auto const e : c0)
        {
""", """        for(auto const e : c0)
        {
            if(e.second.empty() && ! e.second.spill() && e.first > 7)
                continue;
"""))
M("c05-recover-no-kf-trunc", "C05", RC, ("""        kf.trunc(lh.key_file_size, ec);
        if(ec)
            return;
        kf.sync""", """        kf.sync"""))
M("c05-recover-no-sync", "C05 C06", RC, ("""        kf.trunc(lh.key_file_size, ec);
        if(ec)
            return;
        kf.sync(ec);
        if(ec)
            return;""", """        kf.trunc(lh.key_file_size, ec);
        if(ec)
            return;"""))
M("c05-recover-no-df-sync", "C05 C06", RC, ("""    df.sync(ec);
    if(ec)
        return;
""", ""))
M("c05-recover-erase-first", "C05 C06", RC, ("""trunc_files:
    df.trunc""", """trunc_files:
    if(lh.key_file_size != 0)
        lf.trunc(0, ec);
    if(ec)
        return;
    df.trunc"""))
M("c05-recover-tail-error", "C05", RC, ("""            b.read(r, ec);                  // Bucket
            if(ec == error::short_read)
            {
                ec = {};
                break;
            }""", """            b.read(r, ec);                  // Bucket
            if(ec == error::short_read && r.eof())
            {
                ec = {};
                break;
            }"""))
M("c05-recover-spill-bound", "C05", RC, ("""b.spill() + bucketSize > dataFileSize)""", """b.spill() + bucketSize >= dataFileSize)"""))
M("c05-recover-log-read-chunk", "C05", RC, ("""            auto is = r.prepare(field<std::uint64_t>::size, ec);
            // Log""", """            if(r.offset() + bucketSize > logFileSize && b.empty())
                break;
            auto is = r.prepare(field<std::uint64_t>::size, ec);
            // Log"""))
M("c05-index-ge", "C05", RC, ("""if(v > kh.buckets)""", """if(v + 1 >= kh.buckets && kh.buckets > 64)"""))
M("c05-load-no-c0-split", "C05 C06", BS, ("""    c0.insert(n, tmp);
    return c1.insert""", """    if(tmp.size() < s_->kh.capacity || ! tmp.spill())
        c0.insert(n, tmp);
    return c1.insert"""))
# C07
M("c07-data-offset-stale", "C07 C08", BS, ("""        bulk_writer<File> w{s_->df, size, dataWriteSize_};
        // Write inserted""", """        bulk_writer<File> w{s_->df, std::min<noff_t>(size, lh.dat_file_size), dataWriteSize_};
        // Write inserted"""))
# C08
M("c08-close-erases-log", "C08", BS, ("""        if(ecb_)
        {
            ec = ec_;
            return;
        }
        s_->lf.close();
        state s{std::move(*s_)};
        File::erase(s.lp, ec_);
        if(ec_)
            ec = ec_;""", """        s_->lf.close();
        state s{std::move(*s_)};
        error_code ev;
        File::erase(s.lp, ev);
        if(ecb_)
            ec = ec_;
        else if(ev)
            ec = ev;"""))
M("c08-flush-error-not-sticky", "C08", BS, ("""            if(ec_)
            {
                ecb_.store(true);
                return;
            }
            BOOST_ASSERT""", """            if(ec_)
                return;
            BOOST_ASSERT"""))
M("c08-insert-ignores-read-error", "C08", BS, ("""            auto const found = exists(h, key, nullptr, b, ec);
            if(ec)
                return;
            if(found)""", """            auto const found = exists(h, key, nullptr, b, ec);
            if(ec && ec != error::short_read)
                return;
            if(found)"""), )
M("c08-insert-c1-ignores-error", "C08", BS, ("""                h, key, &m, iter->second, ec);
            if(ec)
                return;
            if(found)""", """                h, key, &m, iter->second, ec);
            if(found)"""))
M("c08-log-flush-ignored", "C08", BS, ("""        c0.clear();
        w.flush(ec);
        if(ec)
            return;
        s_->lf.sync(ec);""", """        c0.clear();
        w.flush(ec);
        s_->lf.sync(ec);"""))
M("c08-kf-write-error-lost", "C08", BS, ("""           (e.first + 1) * s_->kh.block_size, ec);
        if(ec)
            return;
    }
    // Finalize""", """           (e.first + 1) * s_->kh.block_size, ec);
    }
    // Finalize"""))
M("c08-close-hides-sticky", "C08", BS, ("""        if(ecb_)
        {
            ec = ec_;
            return;
        }
        s_->lf.close();""", """        if(ecb_)
        {
            if(! s_->p1.empty())
                ec = ec_;
            return;
        }
        s_->lf.close();"""))
M("c08-fetch-spill-error", "C08", BS, ("""        b.read(s_->df, spill, ec);
        if(ec)
            return;
    }
    ec = error::key_not_found;""", """        b.read(s_->df, spill, ec);
        if(ec)
            break;
    }
    ec = error::key_not_found;"""))
M("c08-writer-flush-retry", "C08", BI, ("""        auto const offset = offset_;
        auto const used = used_;
        offset_ += used_;
        used_ = 0;
        f_.write(offset, buf_.get(), used, ec);
        if(ec)
            return;""", """        auto const offset = offset_;
        auto const used = used_;
        offset_ += used_;
        used_ = 0;
        f_.write(offset, buf_.get(), used, ec);
        if(ec == errc::no_space_on_device)
        {
            ec = {};
            f_.write(offset, buf_.get(), used / 2, ec);
        }"""))
# C09
M("c09-bucket-no-pad", "C09", BK, ("""    auto const size = actual_size();
    std::memset(p_ + size, 0, block_size_ - size);
    // Bucket Record
    f.write""", """    // Bucket Record
    f.write"""))
M("c09-spill-record-size", "C09 C14", BK, ("""        write<std::uint16_t>(
            os, b.actual_size());   // Size""", """        write<std::uint16_t>(
            os, b.actual_size() + (offset >> 17 ? 8 : 0)); // Size"""))
M("c09-load-factor-round", "C09 C15", CR, ("""        kh.load_factor = std::min<std::size_t>(
            static_cast<std::size_t>(
                65536.0f * load_factor), 65535);""", """        kh.load_factor = std::min<std::size_t>(
            static_cast<std::size_t>(
                65536.0f * load_factor), 65535) & ~std::size_t{1};"""))
M("c09-log-version", "C09", FM, ("""    write(os, "nudb.log", 8);
    write<std::uint16_t>(os, lh.version);
    write<std::uint64_t>(os, lh.uid);""", """    write(os, "nudb.log", 8);
    write<std::uint16_t>(os, lh.version);
    write<std::uint64_t>(os, lh.appnum ? lh.uid : lh.uid);"""))
M("c09-size-field-high", "C09", BS, ("""            write<uint48_t>(os, e.first.size);          // Size
            write(os, e.first.key""", """            write<uint48_t>(os, e.first.size & 0xffffff); // Size
            write(os, e.first.key"""))
# C10
M("c10-spilltot-multipass", "C10", VF, ("""                if(b0 == 0)
                {
                    ++info.spill_count_tot;
                    info.spill_bytes_tot +=
                        field<uint48_t>::size +     // Zero
                        field<uint16_t>::size +     // Size
                        size;                       // Bucket
                }""", """                ++info.spill_count_tot;
                info.spill_bytes_tot +=
                    field<uint48_t>::size +     // Zero
                    field<uint16_t>::size +     // Size
                    size;                       // Bucket"""))
M("c10-hist-clamp", "C10", VF, ("""            if(nspill >= info.hist.size())
                nspill = info.hist.size() - 1;
            ++info.hist[nspill];
            progress(work, nwork);""", """            if(nspill > info.hist.size())
                nspill = info.hist.size() - 1;
            ++info.hist[nspill];
            progress(work, nwork);"""))
M("c10-fast-fetches", "C10", VF, ("""                    if(ec)
                        return;
                    ++fetches;
                }
            found:
                // Update
                ++info.value_count;
                info.value_bytes += size;
                if(nkeys""", """                    if(ec)
                        return;
                    if(b.full())
                        ++fetches;
                }
            found:
                // Update
                ++info.value_count;
                info.value_bytes += size;
                if(nkeys"""))
M("c10-waste", "C10", VF, ("""    info.waste = (info.spill_bytes_tot - info.spill_bytes) /
        float(info.dat_file_size);
    if(info.value_count)
        info.overhead =
            float(info.key_file_size + info.dat_file_size) /
            (
                info.value_bytes +
                info.key_count *
                    (info.key_size +
                    // Data Record
                     field<uint48_t>::size) // Size
                        ) - 1;
    else
        info.overhead = 0;
    info.actual_load = info.key_count / float(
        info.capacity * info.buckets);
}

// Fast""", """    info.waste = (info.spill_bytes_tot - info.spill_bytes) /
        float(info.dat_file_size);
    if(info.key_count)
        info.overhead =
            float(info.key_file_size + info.dat_file_size) /
            (
                info.value_bytes +
                info.value_count *
                    (info.key_size +
                    // Data Record
                     field<std::uint64_t>::size) // Size
                        ) - 1;
    else
        info.overhead = 0;
    info.actual_load = info.key_count / float(
        info.capacity * info.buckets);
}

// Fast"""))
M("c10-fast-last-chunk", "C10 C20", VF, ("""        auto const b1 = std::min(b0 + chunkSize, kh.buckets);
        // Buffered range is [b0, b1)
        auto const bn = b1 - b0;
        kf.read""", """        auto const b1 = b0 + chunkSize;
        // Buffered range is [b0, b1)
        auto const bn = std::min(chunkSize, kh.buckets - b0);
        kf.read"""), ("""                if(n < b0 || n >= b1)
                    continue;
                // Check""", """                if(n < b0 || n > b1 - 1)
                    continue;
                // Check"""))
# C11
M("c11-fast-size-mismatch", "C11", VF, ("""                            if(item.size != size)
                            {
                                ec = error::size_mismatch;
                                return;
                            }
""", ""))
M("c11-normal-hash", "C11", VF, ("""                    if(h != e.hash)
                    {
                        ec = error::hash_mismatch;""", """                    if(! spill && h != e.hash)
                    {
                        ec = error::hash_mismatch;"""))
M("c11-fast-nkeys", "C11", VF, ("""            if(nkeys[i] != 0)
            {""", """            if(nkeys[i] != 0 && b1 != kh.buckets)
            {"""))
M("c11-normal-key-pass-missing", "C11", VF, ("""                    if(ec == error::short_read)
                    {
                        ec = error::missing_value;
                        return;
                    }""", """                    if(ec == error::short_read)
                    {
                        ec = {};
                        continue;
                    }"""))
M("c11-normal-size", "C11", VF, ("""                    if(size != e.size)
                    {""", """                    if(size < e.size)
                    {"""))
M("c11-fast-orphan-tail", "C11", VF, ("""                    if(! spill)
                    {
                        ec = error::orphaned_value;
                        return;
                    }
                    b = tmp;""", """                    if(! spill)
                    {
                        if(b0 + chunkSize < kh.buckets)
                            goto found;
                        ec = error::orphaned_value;
                        return;
                    }
                    b = tmp;"""))
M("c11-fast-unspilled", "C11", VF, ("""                if(nkeys[n - b0]-- == 0)
                {
                    ec = error::orphaned_value;
                    return;
                }""", """                if(nkeys[n - b0] > 0)
                    --nkeys[n - b0];"""))
# C12
M("c12-chunk-not-cleared", "C12", RK, ("""        for(std::size_t i = 0; i < bn; ++i)
            bucket b{""", """        for(std::size_t i = b0 ? 1 : 0; i < bn; ++i)
            bucket b{"""))
M("c12-buckets-floor", "C12", RK, ("""            std::ceil(itemCount /(
                bucket_capacity(kh.block_size) * loadFactor))));""", """            std::floor(itemCount /(
                bucket_capacity(kh.block_size) * loadFactor))));"""))
M("c12-no-flush", "C12 C13", RK, ("""    dw.flush(ec);
    if(ec)
        return;
    // Without""", """    // Without"""))
M("c12-flush-per-pass-lost", "C12", RK, ("""    bulk_writer<File> dw{df, dataFileSize, writeSize};
    for(nbuck_t b0""", """    for(nbuck_t b0"""), ("""        // Buffered range is [b0, b1)
        auto const bn = b1 - b0;
        // Create""", """        // Buffered range is [b0, b1)
        auto const bn = b1 - b0;
        bulk_writer<File> dw{df, dataFileSize, writeSize};
        // Create"""), ("""            static_cast<std::size_t>(bn * kh.block_size), ec);
        if(ec)
            return;
    }
    dw.flush(ec);
    if(ec)
        return;""", """            static_cast<std::size_t>(bn * kh.block_size), ec);
        if(ec)
            return;
        dw.flush(ec);
        if(ec)
            return;
    }"""))
M("c12-modulus-floor", "C12", RK, ("""    kh.modulus = ceil_pow2(kh.buckets);
    // Create key""", """    kh.modulus = ceil_pow2(kh.buckets + 1);
    // Create key"""))
M("c12-uid", "C12", RK, ("""    kh.appnum = dh.appnum;
    kh.key_size = dh.key_size;
    kh.salt""", """    kh.appnum = dh.appnum & 0xffffffff;
    kh.key_size = dh.key_size;
    kh.salt"""))
M("c12-reads-new-spills", "C12", RK, ("""            dat_file_header::size, dataFileSize, readSize};
        while""", """            dat_file_header::size, dw.offset() - dw.size(), readSize};
        while"""))
# C13
M("c13-no-log-sync", "C13", RK, ("""        write(lf, lh, ec);
        if(ec)
            return;
        lf.sync(ec);
        if(ec)
            return;""", """        write(lf, lh, ec);
        if(ec)
            return;"""))
M("c13-log-after-kf", "C13", RK, ("""        lh.dat_file_size = dataFileSize;        // Data File Size
        write(lf, lh, ec);""", """        lh.dat_file_size = df.size(ec);         // Data File Size
        lh.key_file_size = kf.size(ec);
        write(lf, lh, ec);"""))
M("c13-recover-key-first", "C13", RC, ("""        kf.close();
        lf.close();
        File::erase(log_path, ec);
        if(ec)
            return;
        File::erase(key_path, ec);
        return;""", """        kf.close();
        lf.close();
        File::erase(key_path, ec);
        if(ec)
            return;
        File::erase(log_path, ec);
        return;"""))
M("c13-log-existing-ignored", "C13 C12", RK, ("""    lf.open(file_mode::read, log_path, ec);
    if(! ec)
        ec = error::log_file_exists;
    if(ec != errc::no_such_file_or_directory)
        return;
    ec = {};""", """    lf.open(file_mode::read, log_path, ec);
    if(! ec && lf.size(ec) > 0)
        ec = error::log_file_exists;
    if(ec && ec != errc::no_such_file_or_directory)
        return;
    lf.close();
    ec = {};"""))
# C14
M("c14-callback-error-ignored", "C14", VI, ("""            callback(key, dh.key_size,
                is.data(size), size, ec);
            if(ec)
                return;""", """            callback(key, dh.key_size,
                is.data(size), size, ec);
            if(ec)
            {
                if(r.eof())
                    ec = {};
                return;
            }"""))
M("c14-tail-ignored", "C14", VI, ("""            field<uint48_t>::size, ec); // Size
        if(ec)
            return;
        detail::read_size48""", """            field<uint48_t>::size, ec); // Size
        if(ec == error::short_read)
        {
            ec = {};
            return;
        }
        if(ec)
            return;
        detail::read_size48"""))
M("c14-reader-eof", "C14 C12 C10", BI, ("""        return offset() >= last_;""", """        return offset() + 7 > last_;"""))
# C15
M("c15-erase-existing", "C15", CR, ("""        lf.create(file_mode::append, log_path, ec);
        if(ec)
            goto fail;
        elf = true;""", """        elf = true;
        lf.create(file_mode::append, log_path, ec);
        if(ec)
            goto fail;"""))
M("c15-no-lf-cleanup", "C15", CR, ("""        lf.create(file_mode::append, log_path, ec);
        if(ec)
            goto fail;
        elf = true;""", """        lf.create(file_mode::append, log_path, ec);
        if(ec)
            goto fail;"""))
M("c15-no-kf-sync", "C15", CR, ("""        kf.sync(ec);
        if(ec)
            goto fail;
""", ""))
M("c15-keysize-max", "C15", CR, ("""        key_size > field<std::uint16_t>::max)""", """        key_size > field<std::uint16_t>::max + 1)"""))
M("c15-blocksize-max", "C15", CR, ("""    if(blockSize > field<std::uint16_t>::max)""", """    if(blockSize > field<std::uint16_t>::max + 1)"""))
M("c15-sync-error-return", "C15", CR, ("""        lf.sync(ec);
        if(ec)
            goto fail;
        // Success
        return;""", """        lf.sync(ec);
        // Success
        return;"""))
# C16
M("c16-appnum", "C16", FM, ("""    if(kh.uid != dh.uid)
    {
        ec = error::uid_mismatch;
        return;
    }
    if(kh.appnum != dh.appnum)
    {
        ec = error::appnum_mismatch;
        return;
    }""", """    if(kh.uid != dh.uid)
    {
        ec = error::uid_mismatch;
        return;
    }"""))
M("c16-log-salt", "C16", FM, ("""    if(kh.salt != lh.salt)
    {
        ec = error::salt_mismatch;
        return;
    }
    if(kh.pepper != lh.pepper)
    {
        ec = error::pepper_mismatch;
        return;
    }
""", ""))
M("c16-dat-version", "C16", FM, ("""        ec = error::not_data_file;
        return;
    }
    if(dh.version != currentVersion)""", """        ec = error::not_data_file;
        return;
    }
    if(dh.version > currentVersion)"""))
M("c16-log-blocksize", "C16", FM, ("""    if(kh.block_size != lh.block_size)
    {
        ec = error::block_size_mismatch;
        return;
    }
""", ""))
M("c16-log-uid", "C16", FM, ("""    if(dh.uid != lh.uid)
    {
        ec = error::uid_mismatch;
        return;
    }""", """    if(dh.uid != lh.uid && lh.key_file_size)
    {
        ec = error::uid_mismatch;
        return;
    }"""))
M("c16-pepper", "C16", FM, ("""    if(kh.pepper != pepper<Hasher>(kh.salt))
    {
        ec = error::hash_mismatch;
        return;
    }
    if(kh.load""", """    if((kh.pepper ^ pepper<Hasher>(kh.salt)) & 0xffffffff)
    {
        ec = error::hash_mismatch;
        return;
    }
    if(kh.load"""))
M("c16-log-not-checked-rekey", "C16", RC, ("""    verify<Hasher>(dh, lh, ec);
    if(ec)
        return;
    if(lh.key_file_size == 0)
        goto trunc_files;""", """    if(lh.key_file_size == 0)
        goto trunc_files;
    verify<Hasher>(dh, lh, ec);
    if(ec)
        return;"""))
# C17
M("c17-eintr-read", "C17", PF, ("""        auto const n = ::pread(fd_, buffer, amount, offset);
        if(n == -1)
        {
            auto const ev = errno;
            if(ev == EINTR)
                continue;""", """        auto const n = ::pread(fd_, buffer, amount, offset);
        if(n == -1)
        {
            auto const ev = errno;
            if(ev == EAGAIN)
                continue;"""))
M("c17-short-write-offset", "C17", PF, ("""        offset += n;
        bytes -= n;
        buffer = reinterpret_cast<char const*>(buffer) + n;""", """        bytes -= n;
        buffer = reinterpret_cast<char const*>(buffer) + n;"""))
M("c17-trunc-eintr", "C17", PF, ("""        if(::ftruncate(fd_, length) == 0)
            break;
        auto const ev = errno;
        if(ev == EINTR)
            continue;""", """        if(::ftruncate(fd_, length) == 0)
            break;
        auto const ev = errno;
        if(ev == EINTR)
            return;"""))
M("c17-move-leak", "C17", PF, ("""    close();
    fd_ = other.fd_;
    other.fd_ = -1;
    return *this;""", """    fd_ = other.fd_;
    other.fd_ = -1;
    return *this;"""))
M("c17-self-move", "C17", PF, ("""    if(&other == this)
        return *this;
    close();""", """    close();"""))
M("c17-no-excl", "C17 C15", PF, ("""O_CREAT | O_EXCL, 0644""", """O_CREAT, 0644"""))
M("c17-read-eof", "C17", PF, ("""        if(n == 0)
        {
            ec = error::short_read;
            return;
        }""", """        if(n == 0)
        {
            std::memset(buffer, 0, bytes);
            if(offset == 0)
                ec = error::short_read;
            return;
        }"""))
M("c17-sync-einval", "C17 C08", PF, ("""        if(::fsync(fd_) == 0)
            break;
        auto const ev = errno;
        if(ev == EINTR)
            continue;""", """        if(::fsync(fd_) == 0)
            break;
        auto const ev = errno;
        if(ev == EINTR || ev == EIO)
            continue;"""))
M("c17-size-err", "C17", PF, ("""        last_err(ec);
        return 0;""", """        return 0;"""))
M("c17-open-creat", "C17", PF, ("""    fd_ = ::open(path.c_str(), result.first);""", """    fd_ = ::open(path.c_str(), result.first |
        (mode == file_mode::write ? O_CREAT : 0), 0644);"""))
# C18
M("c18-flush-one-notify", "C18", CX, ("""    waiting_.push_back(store);
    cv_w_.notify_all();
    return true;""", """    waiting_.push_back(store);
    if(flushing_.empty())
        cv_w_.notify_all();
    return true;"""))
M("c18-erase-intermediate", "C18 C02", CX, ("""                return store.state_ != state::intermediate;
            });
        if(store.state_ == state::flushing)
        {
            flushing_.erase(&store);
        }
        else if(store.state_ == state::waiting)
        {
            waiting_.erase(&store);
            cv_w_.notify_all();
        }
        break;""", """                return store.state_ != state::intermediate;
            });
        waiting_.erase(&store);
        cv_w_.notify_all();
        break;"""))
M("c18-splice-prev", "C18", CX, ("""        right.head_->prev_ = tail_;
        tail_->next_ = right.head_;""", """        tail_->next_ = right.head_;"""))
M("c18-erase-next", "C18", CX, ("""    node->next_ = nullptr;
    node->prev_ = nullptr;
}

void
context::list::
splice""", """    node->prev_ = nullptr;
}

void
context::list::
splice"""))
M("c18-stop-flag", "C18", CX, ("""        lock.lock();
    }
    stop_ = false;""", """        lock.lock();
        stop_ = false;
    }"""))
M("c18-stop-no-wait", "C18", CX, ("""            return num_threads_ == 0;
        });
    if(t_""", """            return num_threads_ <= 1;
        });
    if(t_"""))
M("c18-first-static", "C18", CX, ("""    --num_threads_;
    cv_w_.notify_all();
}""", """    if(first || num_threads_ > 1)
        --num_threads_;
    else
        num_threads_ = 0;
    if(num_threads_ == 0)
        cv_w_.notify_all();
}"""))
M("c18-flush-state", "C18", CX, ("""        // Move everything in waiting_ to flushing_
        for(auto store = waiting_.head_; store;
            store = store->next_)
            store->state_ = store_base::state::flushing;
        flushing_.splice(waiting_);
    }

    // Process everything in flushing_
    for(;;)
        if(! flush_one())
            break;
}

void
context::
insert""", """        // Move everything in waiting_ to flushing_
        flushing_.splice(waiting_);
    }

    // Process everything in flushing_
    for(;;)
        if(! flush_one())
            break;
}

void
context::
insert"""))
M("c18-close-late-erase", "C18 C02", BS, ("""        open_ = false;
        ctx_->erase(*this);
        if(! s_->p1.empty())
        {
            std::size_t work;
            detail::unique_lock_type m{m_};
            commit(m, work, ec_);
            if (ec_)
                ecb_.store(true);
        }""", """        open_ = false;
        if(! s_->p1.empty())
        {
            std::size_t work;
            detail::unique_lock_type m{m_};
            commit(m, work, ec_);
            if (ec_)
                ecb_.store(true);
        }
        ctx_->erase(*this);"""))
M("c18-when-drift", "C18", CX, ("""                when = clock_type::now();
                if(flushing_.empty())
                    continue;
""", """                if(flushing_.empty())
                    continue;
                when = clock_type::now();
"""))
M("c18-others-not-notified", "C18", CX, ("""                    // Let other threads flush while this one splices
                    cv_f_.notify_all();
                    continue;""", """                    // Let other threads flush while this one splices
                    cv_f_.notify_one();
                    continue;"""))
# C19
M("c19-lock-during-append", "C19", BS, ("""    swap(s_->p0, s_->p1);
    m.unlock();
    work =""", """    swap(s_->p0, s_->p1);
    work ="""), ("""    work += s_->kh.block_size * (2 * c0.size() + c1.size());
    // Give readers a view of the new buckets.
    // This might be slightly better than the old
    // view since there could be fewer spills.
    m.lock();""", """    work += s_->kh.block_size * (2 * c0.size() + c1.size());
    // Give readers a view of the new buckets.
    // This might be slightly better than the old
    // view since there could be fewer spills."""))
M("c19-lock-during-log", "C19", BS, ("""    g_.start();
    m.unlock();
    // Write clean""", """    g_.start();
    // Write clean"""), ("""    g_.finish();
    // Write new""", """    m.unlock();
    g_.finish();
    // Write new"""))
M("c19-lock-during-trunc", "C19", BS, ("""    s_->lf.trunc(0, ec);
    if(ec)
        return;
    s_->lf.sync(ec);
    if(ec)
        return;
    // Cache is no longer needed, all fetches will go straight
    // to disk again. Do this after the sync, otherwise readers
    // might get blocked longer due to the extra I/O.
    m.lock();
    s_->c1.clear();""", """    s_->lf.trunc(0, ec);
    if(ec)
        return;
    // Cache is no longer needed, all fetches will go straight
    // to disk again.
    m.lock();
    s_->c1.clear();
    s_->lf.sync(ec);"""))
M("c19-finish-under-lock", "C19 C01", BS, ("""    g_.start();
    m.unlock();
    // Write clean""", """    g_.start();
    g_.finish();
    m.unlock();
    // Write clean"""), ("""    g_.finish();
    // Write new""", """    // Write new"""))
# C20
M("c20-bulk-bucket-size", "C20 C02", BK, ("""    if(size_ > bucket_capacity(block_size_))
    {
        ec = error::invalid_bucket_size;
        return;
    }
    update();""", """    if(size_ > bucket_capacity(block_size_) + 1)
    {
        ec = error::invalid_bucket_size;
        return;
    }
    update();"""))
M("c20-bucket-size", "C20", BK, ("""    if(size_ > cap)
    {
        ec = error::invalid_bucket_size;
        return;
    }
}

template<class _>
template<class File>
void
bucket_t<_>::
read(bulk""", """    if(size_ > cap && size_ > 2 * cap)
    {
        ec = error::invalid_bucket_size;
        return;
    }
}

template<class _>
template<class File>
void
bucket_t<_>::
read(bulk"""))
M("c20-buckets-zero", "C20 C16", FM, ("""    if(kh.buckets < 1)
    {
        ec = error::invalid_bucket_count;
        return;
    }
""", ""))
M("c20-load-zero", "C20 C16", FM, ("""    if(kh.load_factor < 1)
    {
        ec = error::invalid_load_factor;
        return;
    }
""", ""))
M("c20-keysize-zero", "C20 C16", FM, ("""    if(dh.key_size < 1)
    {
        ec = error::invalid_key_size;
        return;
    }
""", ""))
# C21
M("c21-tail4", "C21", XX, ("if(p+4<=bEnd)", "if(p+4<bEnd)"))
M("c21-len32", "C21", XX, ("if(len>=32)", "if(len>32)"))
M("c21-unaligned", "C21", XX, ("""    std::uint64_t v;
    memcpy(&v, p, sizeof(v));""", """    std::uint64_t v = 0;
    memcpy(&v, p, sizeof(v) - 1);"""))
M("c21-limit", "C21", XX, ("while(p<=limit);", "while(p<limit);"))
M("c21-len-trunc", "C21", XX, ("    h64 += len;", "    h64 += static_cast<std::uint16_t>(len);"))
# C22
M("c22-pool-clear", "C22", PO, ("""    arena_.clear();
    data_size_ = 0;
    map_.clear();""", """    if(map_.size() > 1)
        arena_.clear();
    data_size_ = 0;
    map_.clear();"""))
M("c22-c1-keep", "C22", BS, ("""    m.lock();
    s_->c1.clear();
}""", """    m.lock();
    if(c0.size() * 64 < s_->c1.size())
        s_->c1.clear();
}"""))
M("c22-no-down", "C22", AR, ("""        // adjust down
        alloc_ /= 2;""", """        // adjust down
        alloc_ -= alloc_ / 1024;"""))
M("c22-up", "C22", AR, ("""        alloc_ = std::max(rate, alloc_ * 2);""", """        alloc_ = std::max(rate * 8, alloc_ * 2);"""))
M("c22-swap-used", "C22", AR, ("""    swap(lhs.used_, rhs.used_);
    swap(lhs.list_""", """    swap(lhs.list_"""))
M("c22-writer-grow", "C22", BI, ("""    if(needed > buf_.size())
        buf_.reserve(needed);
    ostream""", """    if(needed > buf_.size())
        buf_.reserve(needed * 64);
    ostream"""))
# C23
M("c23-verify-status", "C23", CLI, ("""            std::cerr << "verify: " << ec.message() << "\\n";
            return EXIT_FAILURE;""", """            std::cerr << "verify: " << ec.message() << "\\n";
            return ec == error::orphaned_value ? EXIT_SUCCESS : EXIT_FAILURE;"""))
M("c23-visit-hist", "C23", CLI, ("""                ++hist[log2(data_size)];""", """                ++hist[log2(data_size + 1)];"""))
M("c23-waste", "C23", CLI, ("""info.waste * 100 << "%\"""", """info.waste * 10 << "%\""""))
M("c23-fdec", "C23", CLI, ("""        "key_file_size:   " << fdec(info.key_file_size) << "\\n" <<
        "dat_file_size:   " << fdec(info.dat_file_size)""", """        "key_file_size:   " << fdec(info.key_file_size) << "\\n" <<
        "dat_file_size:   " << fdec(info.dat_file_size - info.spill_bytes_tot)"""))
M("c23-count-32", "C23", CLI, ("""        auto const bufferSize = vm["buffer"].as<std::size_t>();
        error_code ec;
        progress p{std::cout};""", """        auto const bufferSize = vm["buffer"].as<std::size_t>();
        error_code ec;
        if(native_file{}.is_open())
            return EXIT_FAILURE;
        erase_file(lp, ec);
        ec = {};
        progress p{std::cout};"""))
M("c23-recover-log", "C23", CLI, ("""        if(! vm.count("dat") || ! vm.count("key") || ! vm.count("log"))
            return error("Missing file specifications");
        error_code ec;""", """        if(! vm.count("dat") || ! vm.count("key"))
            return error("Missing file specifications");
        if(! vm.count("log"))
            return EXIT_SUCCESS;
        error_code ec;"""))
# C24
M("c24-fetch-all", "C24", BS, ("""            auto const item = b[i];
            if(item.hash != h)
                break;
            // Data Record
            auto const len =""", """            auto const item = b[i];
            if(item.hash >> 8 != h >> 8)
                break;
            // Data Record
            auto const len ="""))
M("c24-exists-all", "C24", BS, ("""            auto const item = b[i];
            if(item.hash != h)
                break;
            // Data Record
            s_->df.read(""", """            auto const item = b[i];
            if(b.spill() == 0 && item.hash != h)
                break;
            // Data Record
            s_->df.read("""))
M("c24-frac", "C24", BS, ("""            if((frac_ += 65536) >= thresh_)""", """            if((frac_ += 32768) >= thresh_)"""))
M("c24-frac-max", "C24", BS, ("""        kh.load_factor * kh.capacity);
    frac_""", """        kh.load_factor * (kh.capacity + 2));
    frac_"""))
M("c24-split-respill", "C24 C12", BS, ("""        b1.spill(0);
        do""", """        b2.spill(spill);
        b1.spill(0);
        do"""))
# C25
M("c25-verify-n32", "C25", VF, ("""                b.read(kf,
                       static_cast<noff_t>(n + 1) * kh.block_size, ec);""", """                b.read(kf,
                       static_cast<std::uint32_t>((n + 1) * kh.block_size), ec);"""))
M("c25-recover-n32", "C25", RC, ("""            b.write(kf, static_cast<noff_t>(n + 1) * kh.block_size, ec);""", """            b.write(kf, static_cast<std::uint32_t>((n + 1) * kh.block_size), ec);"""))
M("c25-fetch-n32", "C25", BS, ("""    b.read(s_->kf, (n + 1) * b.block_size(), ec);""", """    b.read(s_->kf, static_cast<std::uint32_t>(n + 1) * static_cast<std::uint32_t>(b.block_size()), ec);"""))
M("c25-commit-n32", "C25", BS, ("""        e.second.write(s_->kf,
           (e.first + 1) * s_->kh.block_size, ec);""", """        e.second.write(s_->kf,
           static_cast<std::uint32_t>((e.first + 1) * s_->kh.block_size), ec);"""))
M("c25-spill-32", "C25", BK, ("""    spill_ = offset;
    update();""", """    spill_ = static_cast<std::uint32_t>(offset);
    update();"""))
M("c25-rekey-32", "C25", RK, ("""        kf.write((b0 + 1) * kh.block_size, buf.get(),""", """        kf.write(static_cast<unsigned>((b0 + 1) * kh.block_size), buf.get(),"""))
M("c25-reader-int", "C25", BI, ("""        auto const n = std::min(buf_.size() - avail_,
            static_cast<std::size_t>(last_ - offset_));""", """        auto const n = std::min(buf_.size() - avail_,
            static_cast<std::size_t>(static_cast<std::uint32_t>(last_ - offset_)));"""))
M("c25-pow2", "C25", FM, ("""        0xFFFFFFFF00000000ull,
        0x00000000FFFF0000ull,""", """        0x0000000000000000ull,
        0x00000000FFFF0000ull,"""))
M("c25-uint48", "C25", FD, ("""    *p++ = (t>>40)&0xff;
    *p++ = (t>>32)&0xff;
    *p++ = (t>>24)&0xff;
    *p++ = (t>>16)&0xff;
    *p++ = (t>> 8)&0xff;
    *p   =  t     &0xff;
}

template<class T, class U, typename std::enable_if<
    std::is_same<T, std::uint64_t>""", """    *p++ = (t>>40)&0x7f;
    *p++ = (t>>32)&0xff;
    *p++ = (t>>24)&0xff;
    *p++ = (t>>16)&0xff;
    *p++ = (t>> 8)&0xff;
    *p   =  t     &0xff;
}

template<class T, class U, typename std::enable_if<
    std::is_same<T, std::uint64_t>"""))
# C26
M("c26-recover-native", "C26", RC, ("""    lf.close();
    File::erase(log_path, ec);
    if(ec)
        return;
}""", """    lf.close();
    native_file::erase(log_path, ec);
    if(ec == errc::no_such_file_or_directory)
        ec = {};
    if(ec)
        return;
}"""))
M("c26-close-native", "C26", BS, ("""        File::erase(s.lp, ec_);""", """        native_file::erase(s.lp, ec_);"""))
M("c26-create-cleanup", "C26 C15", CR, ("""        erase_file<File>(key_path);""", """        erase_file(key_path);"""))
M("c26-rekey-native", "C26", RK, ("""    lf.close();
    File::erase(log_path, ec);""", """    lf.close();
    File::erase(log_path, ec);
    erase_file(log_path);"""))
