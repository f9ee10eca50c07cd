#include "io.hpp"
#include "lue/framework/model/simulate.hpp"
#include "../source/model.cpp"
#include "../source/progressor.cpp"
#include "lue/framework/io/serializer.hpp"
#include "lue/gdal.hpp"

namespace {

    using namespace fw;

    using Function = Operations (*)();

    Operations collect(std::vector<Function> const& functions)
    {
        Operations o;
        for (auto const& f : functions) append(o, f());
        return o;
    }


    void lue_io(Case& c)
    {
        static Operations const operations = collect({io_lue_i32_operations, io_lue_double_operations});
        operations[c.draw(operations.size() - 1)].check(c);
    }


    void gdal_io(Case& c)
    {
        static bool const registered = []() { lue::gdal::register_gdal_drivers(); return true; }();
        static Operations const operations = collect(
            {io_gdal_operations_0, io_gdal_operations_1, io_gdal_operations_2, io_gdal_operations_3, io_gdal_operations_4});
        auto const& operation = operations[c.draw(operations.size() - 1)];
        c.notes("operation: ", operation.name);
        c.label("operation: " + operation.name);
        operation.check(c);
    }


    // Tasks that use the same resource, which are created in any order, run in the order of their generation
    void serialize(Case& c)
    {
        start(c, false);
        lue::Serializer<std::string, Count> serializer;
        std::size_t const nr_keys = 1 + c.draw(2);
        struct Job { std::size_t key; Count generation; unsigned duration; };
        std::vector<Job> jobs;
        for (std::size_t k = 0; k < nr_keys; ++k)
        {
            Count const n = 1 + Count(c.draw(5));
            for (Count g = 1; g <= n; ++g) jobs.push_back({k, g, unsigned(c.draw(4))});
        }
        // Shuffle
        for (std::size_t i = jobs.size() - 1; i > 0; --i) std::swap(jobs[i], jobs[i - c.draw(i)]);

        std::vector<std::vector<Count>> begun(nr_keys), ended(nr_keys), known(nr_keys);
        std::vector<int> busy(nr_keys, 0);
        bool overlap{false}, late{false}, done_early{false};
        std::vector<std::pair<Job, hpx::shared_future<void>>> done;

        run(c, [&]() {
            std::vector<hpx::future<void>> results;
            for (auto const& job : jobs)
            {
                std::string const key = "resource " + str(job.key);
                hpx::promise<void> promise = serializer.promise_for(key, job.generation);
                auto& k = known[job.key];
                k.push_back(job.generation);
                Count const latest = *std::max_element(k.begin(), k.end());
                for (Count g = 1; g <= latest + 1; ++g)
                    c.check(
                        serializer.contains(key, g) == (g <= latest), "whether generation " + str(g) + " is known, up to " + str(latest) + " have been asked for");
                if (job.generation < latest) late = true;
                done.emplace_back(job, serializer.when_done(key, job.generation));
                results.push_back(serializer.when_predecessor_done(key, job.generation)
                    .then([&, job, promise = std::move(promise)](hpx::shared_future<void> const& predecessor) mutable {
                        predecessor.get();
                        if (busy[job.key]++) overlap = true;
                        begun[job.key].push_back(job.generation);
                        for (unsigned i = 0; i < job.duration; ++i) hpx::sim::scheduler().yield();
                        --busy[job.key];
                        ended[job.key].push_back(job.generation);
                        promise.set_value();
                    }));
                if (c.chance(20)) progress(c);
                for (auto const& [j, future] : done)
                {
                    auto const& e = ended[j.key];
                    bool const finished = std::find(e.begin(), e.end(), j.generation) != e.end();
                    if (future.is_ready() && !finished) done_early = true;
                }
            }
            for (auto& result : results) result.get();
        });

        c.notes(jobs.size(), " tasks, ", nr_keys, " resources");
        c.check(!overlap, "two tasks use the same resource at the same time");
        c.check(!done_early, "a task that has not ended is done");
        for (std::size_t k = 0; k < nr_keys; ++k)
        {
            c.check(begun[k].size() == known[k].size(), "not all tasks ran");
            c.check(std::is_sorted(begun[k].begin(), begun[k].end()), "tasks ran in another order than asked for");
        }
        for (auto const& [job, future] : done) c.check(future.is_ready(), "a task has ended, but is not done");
        c.label(nr_keys > 1 ? "several resources" : "one resource");
        if (late) c.nontrivial();
    }


    struct Log
    {
            std::vector<std::string> model;
            std::vector<std::string> all;
    };

    class Model: public lue::Model
    {
        public:

            Model(Case& c, Log& log): _case{c}, _log{log} {}

            void preprocess(Count const sample_nr) final { add("preprocess " + str(sample_nr)); }
            void initialize() final { add("initialize"); _finished.clear(); _nr_busy = 0; }

            auto simulate(Count const time_step) -> hpx::shared_future<void> final
            {
                add("simulate " + str(time_step));
                ++_nr_busy;
                max_busy = std::max(max_busy, _nr_busy);
                unsigned const duration = unsigned(_case.draw(5));
                hpx::shared_future<void> result;
                if (duration == 0)
                {
                    --_nr_busy;
                    ++nr_finished;
                    result = hpx::make_ready_future().share();
                }
                else
                {
                    result = hpx::async([this, duration]() {
                        for (unsigned i = 0; i < duration * 2; ++i) hpx::sim::scheduler().yield();
                        --_nr_busy;
                        ++nr_finished;
                    });
                }
                return result;
            }

            void finalize() final { add("finalize"); if (_nr_busy) busy_at_end = true; }
            void postprocess() final { add("postprocess"); }

            int max_busy{0};
            int nr_finished{0};
            bool busy_at_end{false};

        private:

            void add(std::string const& event) { _log.all.push_back("model " + event); }

            Case& _case;
            Log& _log;
            std::vector<Count> _finished;
            int _nr_busy{0};
    };

    class Progressor: public lue::Progressor
    {
        public:

            Progressor(Log& log): _log{log} {}

            void preprocess(Count const sample_nr) final { add("preprocess " + str(sample_nr)); }
            void initialize() final { add("initialize"); }
            void simulate(Count const time_step) final { add("simulate " + str(time_step)); }
            void finalize() final { add("finalize"); }
            void postprocess() final { add("postprocess"); }

        private:

            void add(std::string const& event) { _log.all.push_back("progressor " + event); }

            Log& _log;
    };


    void simulate(Case& c)
    {
        start(c, false);
        Log log;
        Model model{c, log};
        Progressor progressor{log};
        Count const nr_steps = Count(c.draw(8));
        Count const nr_samples = 1 + Count(c.draw(2));
        Count const rate_limit = Count(c.draw(std::uint64_t(nr_steps + 2)));
        bool const stochastic = c.boolean();
        c.notes(stochastic ? "stochastic, " : "deterministic, ", nr_samples, " samples, ", nr_steps, " steps, rate limit ", rate_limit);
        bool const in_task = c.boolean();

        auto work = [&]() {
            if (stochastic) lue::run_stochastic(model, progressor, nr_samples, nr_steps, rate_limit);
            else lue::run_deterministic(model, progressor, nr_steps, rate_limit);
        };

        run(c, [&]() {
            if (in_task) hpx::async(work).get();
            else work();
        });

        std::vector<std::string> expected;
        for (Count s = 1; s <= (stochastic ? nr_samples : 1); ++s)
        {
            if (stochastic)
            {
                expected.push_back("progressor preprocess " + str(s));
                expected.push_back("model preprocess " + str(s));
            }
            expected.push_back("progressor initialize");
            expected.push_back("model initialize");
            for (Count t = 1; t <= nr_steps; ++t)
            {
                expected.push_back("model simulate " + str(t));
                expected.push_back("progressor simulate " + str(t));
            }
            expected.push_back("model finalize");
            expected.push_back("progressor finalize");
            if (stochastic)
            {
                expected.push_back("model postprocess");
                expected.push_back("progressor postprocess");
            }
        }
        for (std::size_t i = 0; i < std::max(expected.size(), log.all.size()); ++i)
        {
            c.equal(
                i < log.all.size() ? log.all[i] : std::string{"nothing"}, i < expected.size() ? expected[i] : std::string{"nothing"},
                "step " + str(i) + " of the run");
        }
        c.check(!model.busy_at_end, "the model is finalized while time steps are still being simulated");
        c.equal(model.nr_finished, int(nr_steps * (stochastic ? nr_samples : 1)), "number of finished time steps");
        if (rate_limit > 0)
        {
            c.check(
                model.max_busy <= rate_limit,
                str(model.max_busy) + " time steps are simulated at the same time, but the limit is " + str(rate_limit));
        }
        c.label(rate_limit == 0 ? "no rate limit" : rate_limit >= nr_steps ? "rate limit not reached" : "rate limit");
        if (model.max_busy > 1) c.nontrivial();
    }


    void order(Case& c)
    {
        if (c.boolean()) { c.label("serializer"); serialize(c); }
        else { c.label("simulation"); simulate(c); }
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return pt::main(
        argc, argv,
        std::vector<pt::Property>{
            {"F11", "an array is written to or read from a file while other reads or writes may not have finished", lue_io, 3000, 40000},
            {"F12", "several partitions, and no-data cells when reading", gdal_io, 25000, 500000},
            {"F13", "a task is created before one it has to wait for, or several time steps are simulated at the same time", order, 300000, 6000000}});
}
