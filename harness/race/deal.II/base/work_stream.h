// Stands in for deal.II's WorkStream::run in the `race` variant: the same
// contract (workers of different items in any order and at the same time, each
// with a scratch object of its thread and a reused copy object; copiers one at
// a time and in order), executed on one thread along a schedule of our own,
// with the memory accesses of each task told apart.
#ifndef gcpv_work_stream_h
#define gcpv_work_stream_h

#include <deal.II/base/config.h>
#include <deal.II/base/graph_coloring.h>
#include <deal.II/base/iterator_range.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/parallel.h>
#include <deal.II/base/std_cxx20/type_traits.h>
#include <deal.II/base/template_constraints.h>
#include <deal.II/base/thread_local_storage.h>
#include <deal.II/base/thread_management.h>
#include <functional>
#include <iterator>
#include <memory>
#include <utility>
#include <vector>
#include <cstdlib>
#ifdef DEAL_II_WITH_TBB
#include <tbb/parallel_pipeline.h>
#endif

#define run run_of_dealii
#include_next <deal.II/base/work_stream.h>
#undef run

extern "C"
{
  void          gcpv_epoch_begin(const void *frame);
  void          gcpv_task(unsigned id, int role); // role 0: none, 1: worker, 2: copier
  void          gcpv_epoch_end(void);
  unsigned long gcpv_schedule(void); // 0: in order, otherwise a seed
  unsigned      gcpv_random(unsigned n);
}

namespace dealii
{
  namespace WorkStream
  {
    template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
    void run(const Iterator &begin, const std_cxx20::type_identity_t<Iterator> &end, Worker worker, Copier copier,
             const ScratchData &sample_scratch, const CopyData &sample_copy, const unsigned int = 0, const unsigned int chunk_size = 8)
    {
      std::vector<Iterator> items;
      for (Iterator i = begin; i != end; ++i) items.push_back(i);
      struct Guard { ~Guard() { gcpv_epoch_end(); } } guard;
      gcpv_epoch_begin(__builtin_frame_address(0));
      if (!gcpv_schedule())
        {
          ScratchData scratch(sample_scratch);
          CopyData    copy(sample_copy);
          for (unsigned i = 0; i < items.size(); ++i)
            {
              gcpv_task(i + 1, 1);
              worker(items[i], scratch, copy);
              gcpv_task(i + 1, 2);
              copier(copy);
              gcpv_task(0, 0);
            }
          return;
        }
      const unsigned threads = 2 + gcpv_random(3);
      std::vector<std::unique_ptr<ScratchData>> scratch(threads);
      for (auto &s : scratch) s = std::make_unique<ScratchData>(sample_scratch);
      const unsigned window = 2 * threads;
      std::vector<std::vector<CopyData>> copies(window, std::vector<CopyData>(chunk_size, sample_copy));
      const unsigned chunk = 1 + gcpv_random(chunk_size);
      for (unsigned first = 0; first < items.size(); first += window * chunk)
        {
          struct State { unsigned begin, next, end; int thread; };
          std::vector<State> chunks;
          for (unsigned b = first; b < items.size() && b < first + window * chunk; b += chunk)
            chunks.push_back({b, b, std::min<unsigned>(b + chunk, items.size()), -1});
          std::vector<int> busy(threads, -1);
          unsigned left = chunks.size();
          while (left)
            {
              const unsigned t = gcpv_random(threads);
              if (busy[t] < 0)
                {
                  std::vector<int> waiting;
                  for (unsigned k = 0; k < chunks.size(); ++k) if (chunks[k].thread < 0) waiting.push_back(k);
                  if (waiting.empty()) continue;
                  // tokens start in order, but overtake one another
                  busy[t] = waiting[gcpv_random(std::min<unsigned>(waiting.size(), 2))];
                  chunks[busy[t]].thread = t;
                }
              State &c = chunks[busy[t]];
              gcpv_task(c.next + 1, 1);
              worker(items[c.next], *scratch[t], copies[busy[t]][c.next - c.begin]);
              gcpv_task(0, 0);
              if (++c.next == c.end) { busy[t] = -1; --left; }
            }
          for (unsigned k = 0; k < chunks.size(); ++k)
            for (unsigned i = chunks[k].begin; i < chunks[k].end; ++i)
              {
                gcpv_task(i + 1, 2);
                copier(copies[k][i - chunks[k].begin]);
                gcpv_task(0, 0);
              }
        }
    }

    template <typename MainClass, typename Iterator, typename ScratchData, typename CopyData>
    void run(const Iterator &begin, const std_cxx20::type_identity_t<Iterator> &end, MainClass &main_object,
             void (MainClass::*worker)(const Iterator &, ScratchData &, CopyData &), void (MainClass::*copier)(const CopyData &),
             const ScratchData &sample_scratch, const CopyData &sample_copy, const unsigned int q = 0, const unsigned int chunk_size = 8)
    {
      run(begin, end,
          [&](const Iterator &i, ScratchData &s, CopyData &c) { (main_object.*worker)(i, s, c); },
          [&](const CopyData &c) { (main_object.*copier)(c); }, sample_scratch, sample_copy, q, chunk_size);
    }

    template <typename Worker, typename Copier, typename Range, typename ScratchData, typename CopyData,
              typename = decltype(std::declval<Range>().begin())>
    void run(Range range, Worker worker, Copier copier, const ScratchData &s, const CopyData &c, const unsigned int q = 0, const unsigned int chunk_size = 8)
    {
      using It = std::decay_t<decltype(range.begin())>;
      const It b = range.begin(), e = range.end();
      run<Worker, Copier, It, ScratchData, CopyData>(b, e, worker, copier, s, c, q, chunk_size);
    }
  }
}
#endif
