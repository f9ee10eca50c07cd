#include "pt.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>


namespace pt {

    static constexpr std::size_t max_nr_choices = 1 << 18;
    static constexpr std::size_t max_note = 1 << 16;
    static constexpr std::size_t max_nr_hashes = 1 << 19;
    static constexpr std::size_t max_nr_labels = 96;
    static constexpr std::size_t max_nr_samples = 3;

    struct Shared
    {
            // Current case
            volatile std::uint64_t index;
            volatile std::uint64_t nr_choices;
            std::uint64_t choices[max_nr_choices];
            volatile std::uint64_t note_size;
            char note[max_note];
            bool is_nontrivial;

            // Outcome of the current case: 0 running, 1 passed, 2 failed, 3 discarded
            volatile int outcome;
            char message[8192];

            // Totals
            std::uint64_t nr_evaluations;
            std::uint64_t nr_discards;
            std::uint64_t nr_nontrivial;
            std::uint64_t nr_hashes;
            std::uint64_t hashes[max_nr_hashes];
            std::uint64_t nr_labels;
            struct Label
            {
                    char name[64];
                    std::uint64_t count;
                    std::uint64_t last_index;
            } labels[max_nr_labels];
            std::uint64_t nr_samples;
            char samples[max_nr_samples][3000];
            bool done;
            bool out_of_time;
    };


    static Shared* new_shared()
    {
        void* memory = mmap(
            nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (memory == MAP_FAILED)
        {
            std::perror("mmap");
            std::exit(3);
        }
        return static_cast<Shared*>(memory);
    }


    static std::uint64_t mix(std::uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ULL;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }


    Case::Case(Shared& shared, std::uint64_t seed, std::vector<std::uint64_t> const* replay,
        std::string const& scratch, bool thorough):
        _shared{shared},
        _state{seed},
        _replay{replay},
        _pos{0},
        _scratch{scratch},
        _thorough{thorough}
    {
        _shared.nr_choices = 0;
        _shared.note_size = 0;
        _shared.is_nontrivial = false;
        _shared.outcome = 0;
        _shared.message[0] = 0;
    }


    std::uint64_t Case::next()
    {
        _state += 0x9e3779b97f4a7c15ULL;
        std::uint64_t z = _state;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }


    std::uint64_t Case::draw(std::uint64_t bound)
    {
        std::uint64_t choice = 0;

        if (_replay != nullptr)
        {
            if (_pos < _replay->size())
            {
                choice = (*_replay)[_pos];
                if (choice > bound)
                {
                    choice = bound;
                }
            }
        }
        else if (bound > 0)
        {
            choice = next();
            if (bound != std::numeric_limits<std::uint64_t>::max())
            {
                choice %= bound + 1;
            }
        }

        if (_pos >= max_nr_choices)
        {
            throw Discard{};
        }

        _shared.choices[_pos] = choice;
        ++_pos;
        _shared.nr_choices = _pos;

        return choice;
    }


    std::size_t Case::size(std::size_t lo, std::size_t hi)
    {
        if (lo == hi)
        {
            return lo;
        }
        std::size_t range = hi - lo;
        if (range > 8 && !chance(20))
        {
            range = std::max<std::size_t>(4, range / 8);
        }
        return lo + draw(range);
    }


    std::uint64_t Case::any64()
    {
        switch (draw(7))
        {
            case 0:
            case 1:
            case 2:
            {
                return draw(20);
            }
            case 3:
            {
                return draw(300);
            }
            case 4:
            {
                // Near powers of two
                std::uint64_t base = std::uint64_t{1} << draw(63);
                return base + draw(4) - 2;
            }
            case 5:
            {
                return std::numeric_limits<std::uint64_t>::max() - draw(4);
            }
            default:
            {
                return draw(std::numeric_limits<std::uint64_t>::max());
            }
        }
    }


    std::string Case::name(std::size_t max_length)
    {
        static std::string const characters = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_- .:\xc3\xa9";
        std::size_t n = 1 + size(0, max_length - 1);
        std::string result;
        for (std::size_t i = 0; i < n; ++i)
        {
            // Favour identifier characters
            result += static_cast<char>('a' + draw(25));
            if (chance(10))
            {
                std::uint64_t k = draw(36 + 5);
                static std::string const extra = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- .:";
                result.back() = extra[k % extra.size()];
            }
        }
        if (result == ".")
        {
            result = "p";
        }
        // Trailing and leading dots have a meaning in path names
        if (result.front() == '.')
        {
            result.front() = 'q';
        }
        return result;
    }


    std::string Case::text(std::size_t max_length, bool allow_empty)
    {
        std::size_t n = size(allow_empty ? 0 : 1, max_length);
        std::string result;
        static std::vector<std::string> const extra{
            "\xc3\xa9", "\xce\xbb", "\xe2\x82\xac", "\xf0\x9f\x8c\x8d", " ", "\n", "\"", "\\", "/", "{", "}", "%", "0"};
        while (result.size() < n)
        {
            if (chance(15))
            {
                result += pick(extra);
            }
            else
            {
                result += static_cast<char>('a' + draw(25));
            }
        }
        return result;
    }


    void Case::note(std::string const& text)
    {
        std::size_t size = _shared.note_size;
        std::size_t n = std::min(text.size(), max_note - 2 - std::min(max_note - 2, size));
        std::memcpy(_shared.note + size, text.data(), n);
        size += n;
        _shared.note[size++] = '\n';
        _shared.note[size] = 0;
        _shared.note_size = std::min(size, max_note - 2);
    }


    void Case::label(std::string const& name)
    {
        for (std::size_t i = 0; i < _shared.nr_labels; ++i)
        {
            if (name == _shared.labels[i].name)
            {
                if (_shared.labels[i].last_index != _shared.index + 1)
                {
                    ++_shared.labels[i].count;
                    _shared.labels[i].last_index = _shared.index + 1;
                }
                return;
            }
        }
        if (_shared.nr_labels < max_nr_labels)
        {
            auto& label = _shared.labels[_shared.nr_labels++];
            std::strncpy(label.name, name.c_str(), sizeof(label.name) - 1);
            label.count = 1;
            label.last_index = _shared.index + 1;
        }
    }


    void Case::nontrivial()
    {
        _shared.is_nontrivial = true;
    }


    static std::string json_string(std::string const& text)
    {
        // Bytes that are not part of valid UTF-8 are the reader's concern (errors="replace")
        std::ostringstream stream;
        stream << '"';
        for (unsigned char c: text)
        {
            if (c == '"' || c == '\\')
            {
                stream << '\\' << c;
            }
            else if (c == '\n')
            {
                stream << "\\n";
            }
            else if (c < 32)
            {
                char buffer[8];
                std::snprintf(buffer, sizeof buffer, "\\u%04x", c);
                stream << buffer;
            }
            else
            {
                stream << c;
            }
        }
        stream << '"';
        return stream.str();
    }


    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }


    static void empty_directory(std::string const& path)
    {
        std::error_code error;
        for (auto const& entry: std::filesystem::directory_iterator(path, error))
        {
            std::filesystem::remove_all(entry.path(), error);
        }
    }


    //! Run one case in this process. Result: 1 passed, 2 failed, 3 discarded
    static int run_case(
        Property const& property, std::function<void(Case&)> const& run, Shared& shared, std::uint64_t seed,
        std::vector<std::uint64_t> const* replay, std::string const& scratch, bool thorough)
    {
        (void)property;
        empty_directory(scratch);
        Case c{shared, seed, replay, scratch, thorough};
        int outcome = 1;
        std::string message;

        try
        {
            run(c);
        }
        catch (Failure const& failure)
        {
            message = failure.what();
            outcome = 2;
        }
        catch (Discard const&)
        {
            outcome = 3;
        }
        catch (std::exception const& exception)
        {
            message = std::string("unexpected exception: ") + exception.what();
            outcome = 2;
        }
        catch (...)
        {
            message = "unexpected exception of unknown type";
            outcome = 2;
        }

        std::strncpy(shared.message, message.c_str(), sizeof(shared.message) - 1);
        shared.outcome = outcome;

        return outcome;
    }


    struct Outcome
    {
            bool failed{false};
            std::string kind;
            std::string message;
            std::string notes;
            std::vector<std::uint64_t> choices;
    };


    static std::string tail(std::string const& path, std::size_t n)
    {
        std::ifstream stream(path, std::ios::binary);
        std::string text((std::istreambuf_iterator<char>(stream)), std::istreambuf_iterator<char>());
        if (text.size() > n)
        {
            text = text.substr(text.size() - n);
        }
        std::string clean;
        for (unsigned char c: text)
        {
            clean += (c < 127) ? static_cast<char>(c) : '?';
        }
        return clean;
    }


    static void redirect_stderr(std::string const& path)
    {
        int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0)
        {
            dup2(fd, 2);
            dup2(fd, 1);
            close(fd);
        }
    }


    static Outcome describe(Shared& shared, int status, bool hang, std::string const& stderr_path)
    {
        Outcome outcome;
        outcome.choices.assign(shared.choices, shared.choices + shared.nr_choices);
        outcome.notes = std::string(shared.note, shared.note + shared.note_size);

        if (hang)
        {
            outcome.failed = true;
            outcome.kind = "hang";
            outcome.message = "the case does not end";
        }
        else if (WIFSIGNALED(status))
        {
            outcome.failed = true;
            outcome.kind = "crash";
            outcome.message =
                "crash: signal " + std::to_string(WTERMSIG(status)) + "; " + tail(stderr_path, 1500);
        }
        else if (shared.outcome == 2)
        {
            outcome.failed = true;
            outcome.kind = "failure";
            outcome.message = shared.message;
        }
        else if (shared.outcome == 0)
        {
            outcome.failed = true;
            outcome.kind = "crash";
            outcome.message = "the process ended with exit code " + std::to_string(WEXITSTATUS(status)) + "; " +
                              tail(stderr_path, 1500);
        }

        return outcome;
    }


    static bool wait_for(pid_t pid, double timeout, int& status)
    {
        // Returns false when the process had to be killed
        double start = now();
        useconds_t pause = 200;
        while (true)
        {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid)
            {
                return true;
            }
            if (now() - start > timeout)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                return false;
            }
            usleep(pause);
            if (pause < 5000)
            {
                pause += 200;
            }
        }
    }


    //! Run a single case in a process of its own
    static Outcome run_forked(
        Property const& property, std::function<void(Case&)> const& run, Shared& shared, std::uint64_t seed,
        std::vector<std::uint64_t> const* replay, std::string const& scratch, bool thorough, double timeout)
    {
        std::string const directory = scratch + "/single";
        std::string const stderr_path = scratch + "/single.err";
        mkdir(directory.c_str(), 0700);
        shared.outcome = 0;
        shared.nr_choices = 0;
        shared.note_size = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect_stderr(stderr_path);
            if (property.setup)
            {
                property.setup();
            }
            run_case(property, run, shared, seed, replay, directory, thorough);
            _exit(0);
        }
        int status = 0;
        bool ended = wait_for(pid, timeout, status);
        return describe(shared, status, !ended, stderr_path);
    }


    static bool simpler(std::vector<std::uint64_t> const& a, std::vector<std::uint64_t> const& b)
    {
        if (a.size() != b.size())
        {
            return a.size() < b.size();
        }
        return a < b;
    }


    static Outcome shrink(Property const& property, Shared& shared, Outcome best, std::string const& scratch,
        bool thorough, double budget)
    {
        double const start = now();
        auto attempt = [&](std::vector<std::uint64_t> const& candidate)
        {
            if (now() - start > budget)
            {
                return false;
            }
            Outcome outcome =
                run_forked(property, property.run, shared, 0, &candidate, scratch, thorough, 30.0);
            if (outcome.failed && outcome.kind != "hang" && simpler(outcome.choices, best.choices))
            {
                best = outcome;
                return true;
            }
            return false;
        };

        bool progress = true;
        while (progress && now() - start < budget)
        {
            progress = false;

            // Delete ranges
            for (std::size_t n: {64, 32, 16, 8, 4, 3, 2, 1})
            {
                for (std::size_t i = best.choices.size(); i-- > 0;)
                {
                    if (i + n > best.choices.size())
                    {
                        continue;
                    }
                    auto candidate = best.choices;
                    candidate.erase(candidate.begin() + i, candidate.begin() + i + n);
                    if (attempt(candidate))
                    {
                        progress = true;
                    }
                    if (now() - start > budget)
                    {
                        break;
                    }
                }
            }

            // Zero and minimise single choices
            for (std::size_t i = 0; i < best.choices.size() && now() - start < budget; ++i)
            {
                if (best.choices[i] == 0)
                {
                    continue;
                }
                auto candidate = best.choices;
                candidate[i] = 0;
                if (attempt(candidate))
                {
                    progress = true;
                    continue;
                }
                std::uint64_t lo = 0;
                std::uint64_t hi = i < best.choices.size() ? best.choices[i] : 0;
                while (hi - lo > 1 && now() - start < budget)
                {
                    std::uint64_t mid = lo + (hi - lo) / 2;
                    candidate = best.choices;
                    if (i >= candidate.size())
                    {
                        break;
                    }
                    candidate[i] = mid;
                    if (attempt(candidate))
                    {
                        progress = true;
                        hi = mid;
                    }
                    else
                    {
                        lo = mid;
                    }
                }
            }
        }

        return best;
    }


    static std::uint64_t case_seed(std::uint64_t seed, std::string const& id, std::uint64_t index)
    {
        std::uint64_t h = mix(seed);
        for (unsigned char c: id)
        {
            h = mix(h ^ c);
        }
        return mix(h ^ mix(index));
    }


    static std::uint64_t hash_choices(Shared const& shared)
    {
        std::uint64_t h = 1469598103934665603ULL;
        for (std::size_t i = 0; i < shared.nr_choices; ++i)
        {
            h = mix(h ^ shared.choices[i]);
        }
        return h;
    }


    static void worker(Property const& property, Shared& shared, std::uint64_t seed, std::size_t begin,
        std::size_t stride, std::size_t nr_cases, std::string const& scratch, bool thorough, double deadline)
    {
        std::string const directory = scratch + "/cases";
        mkdir(directory.c_str(), 0700);
        redirect_stderr(scratch + "/cases.err");
        if (property.setup)
        {
            property.setup();
        }
        std::size_t n = 0;
        for (std::size_t i = begin; i < nr_cases; i += stride)
        {
            shared.index = i;
            shared.outcome = 0;
            shared.nr_choices = 0;
            if (n % 16 == 0)
            {
                if (ftruncate(2, 0) != 0)
                {
                }
                lseek(2, 0, SEEK_SET);
                if (now() > deadline)
                {
                    shared.out_of_time = true;
                    break;
                }
            }
            int outcome = run_case(
                property, property.run, shared, case_seed(seed, property.id, i), nullptr, directory, thorough);
            ++shared.nr_evaluations;
            if (outcome == 2)
            {
                _exit(1);
            }
            if (outcome == 3)
            {
                ++shared.nr_discards;
            }
            else if (shared.is_nontrivial)
            {
                ++shared.nr_nontrivial;
                if (shared.nr_hashes < max_nr_hashes)
                {
                    shared.hashes[shared.nr_hashes++] = hash_choices(shared);
                }
                if (shared.nr_samples < max_nr_samples && shared.note_size > 0)
                {
                    std::strncpy(shared.samples[shared.nr_samples], shared.note, 2999);
                    ++shared.nr_samples;
                }
            }
            ++n;
        }
        empty_directory(directory);
        shared.done = true;
        _exit(0);
    }


    static std::vector<std::uint64_t> read_choices(std::string const& path)
    {
        std::ifstream stream(path);
        std::vector<std::uint64_t> result;
        std::uint64_t value;
        while (stream >> value)
        {
            result.push_back(value);
        }
        return result;
    }


    static void write_outcome(std::ostream& stream, Outcome const& outcome)
    {
        stream << "{\"kind\": " << json_string(outcome.kind) << ", \"message\": " << json_string(outcome.message)
               << ", \"notes\": " << json_string(outcome.notes) << ", \"choices\": [";
        for (std::size_t i = 0; i < outcome.choices.size(); ++i)
        {
            stream << (i ? ", " : "") << outcome.choices[i];
        }
        stream << "]}";
    }


    int main(int argc, char** argv, std::vector<Property> const& properties)
    {
        std::map<std::string, std::string> options;
        for (int i = 1; i + 1 < argc; i += 2)
        {
            options[argv[i]] = argv[i + 1];
        }

        std::string const id = options["--id"];
        bool const thorough = options["--tier"] == "thorough";
        std::uint64_t const seed = options.count("--seed") ? std::stoull(options["--seed"]) : 1;
        std::string const scratch = options["--scratch"];
        std::string const out = options["--out"];
        std::size_t nr_workers = options.count("--workers") ? std::stoul(options["--workers"]) : 8;
        double const time_cap = options.count("--time") ? std::stod(options["--time"]) : 500.0;

        auto it = std::find_if(
            properties.begin(), properties.end(), [&](Property const& p) { return p.id == id; });
        if (it == properties.end() || scratch.empty() || out.empty())
        {
            std::cerr << "usage: --id ID --tier quick|thorough --seed N --scratch DIR --out FILE\n";
            return 2;
        }
        Property const& property = *it;
        std::size_t nr_cases = thorough ? property.nr_cases_thorough : property.nr_cases_quick;
        if (options.count("--cases"))
        {
            nr_cases = std::stoul(options["--cases"]);
        }

        Shared* single = new_shared();

        if (options.count("--probe"))
        {
            // Reproduction of a known finding
            for (auto const& [name, function]: property.probes)
            {
                if (name == options["--probe"])
                {
                    std::vector<std::uint64_t> const none;
                    Outcome outcome =
                        run_forked(property, function, *single, 0, &none, scratch, thorough, 120.0);
                    std::ofstream stream(out);
                    write_outcome(stream, outcome);
                    stream << "\n";
                    return outcome.failed ? 1 : 0;
                }
            }
            std::cerr << "unknown probe\n";
            return 2;
        }

        if (options.count("--replay"))
        {
            auto const choices = read_choices(options["--replay"]);
            Outcome outcome =
                run_forked(property, property.run, *single, 0, &choices, scratch, thorough, 120.0);
            std::ofstream stream(out);
            write_outcome(stream, outcome);
            stream << "\n";
            return outcome.failed ? 1 : 0;
        }

        nr_workers = std::max<std::size_t>(1, std::min(nr_workers, nr_cases));
        std::vector<Shared*> shared(nr_workers);
        std::vector<pid_t> pids(nr_workers, 0);
        std::vector<double> last_change(nr_workers, now());
        std::vector<std::uint64_t> last_index(nr_workers, 0);
        std::vector<std::string> directories(nr_workers);
        double const start = now();
        double const hang_limit = 60.0;

        for (std::size_t w = 0; w < nr_workers; ++w)
        {
            shared[w] = new_shared();
            directories[w] = scratch + "/w" + std::to_string(w);
            mkdir(directories[w].c_str(), 0700);
            pids[w] = fork();
            if (pids[w] == 0)
            {
                worker(property, *shared[w], seed, w, nr_workers, nr_cases, directories[w], thorough,
                    start + time_cap);
            }
        }

        bool any_failure = false;
        std::size_t failing_worker = 0;
        Outcome failure;
        std::size_t nr_running = nr_workers;
        while (nr_running > 0)
        {
            usleep(2000);
            for (std::size_t w = 0; w < nr_workers; ++w)
            {
                if (pids[w] == 0)
                {
                    continue;
                }
                int status = 0;
                bool hang = false;
                pid_t r = waitpid(pids[w], &status, WNOHANG);
                if (r != pids[w])
                {
                    if (shared[w]->nr_evaluations != last_index[w])
                    {
                        last_index[w] = shared[w]->nr_evaluations;
                        last_change[w] = now();
                    }
                    if (now() - last_change[w] <= hang_limit)
                    {
                        continue;
                    }
                    hang = true;
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &status, 0);
                }
                pids[w] = 0;
                --nr_running;
                if (!shared[w]->done && !any_failure)
                {
                    failure = describe(*shared[w], status, hang, directories[w] + "/cases.err");
                    if (!failure.failed)
                    {
                        failure.failed = true;
                        failure.kind = "crash";
                        failure.message = "worker process ended early: " + std::to_string(status) + "; " +
                                          tail(directories[w] + "/cases.err", 1500);
                    }
                    any_failure = true;
                    failing_worker = w;
                    for (std::size_t v = 0; v < nr_workers; ++v)
                    {
                        if (pids[v] != 0)
                        {
                            kill(pids[v], SIGKILL);
                            waitpid(pids[v], &status, 0);
                            pids[v] = 0;
                            --nr_running;
                        }
                    }
                }
            }
        }

        bool reproduced = true;
        std::string batch;
        if (any_failure)
        {
            // Reproduce in a process of its own, three times
            Outcome original = failure;
            bool const hang = failure.kind == "hang";
            double const limit = hang ? 60.0 : 200.0;
            for (int i = 0; i < (hang ? 1 : 3) && reproduced; ++i)
            {
                Outcome again = run_forked(
                    property, property.run, *single, 0, &original.choices, scratch, thorough, limit);
                reproduced = again.failed;
                if (reproduced && i == 0)
                {
                    failure = again;
                }
            }
            if (reproduced)
            {
                if (failure.kind != "hang")
                {
                    failure = shrink(property, *single, failure, scratch, thorough, 40.0);
                }
                for (int i = 0; i < 3 && !hang; ++i)
                {
                    Outcome again = run_forked(
                        property, property.run, *single, 0, &failure.choices, scratch, thorough, limit);
                    if (!again.failed)
                    {
                        failure = original;
                    }
                }
            }
            else
            {
                // The case depends on earlier ones in the same process: replay the run of the worker
                std::size_t const last = shared[failing_worker]->index;
                reproduced = true;
                for (int i = 0; i < 3 && reproduced; ++i)
                {
                    Shared* again = new_shared();
                    pid_t pid = fork();
                    if (pid == 0)
                    {
                        worker(property, *again, seed, failing_worker, nr_workers, last + 1,
                            directories[failing_worker], thorough, now() + 1000);
                    }
                    int status = 0;
                    wait_for(pid, 900.0, status);
                    reproduced = !again->done;
                    munmap(again, sizeof(Shared));
                }
                failure = original;
                batch = "{\"worker\": " + std::to_string(failing_worker) +
                        ", \"workers\": " + std::to_string(nr_workers) + ", \"last\": " + std::to_string(last) +
                        ", \"seed\": " + std::to_string(seed) + "}";
            }
        }

        // Report
        std::set<std::uint64_t> hashes;
        std::uint64_t nr_evaluations = 0;
        std::uint64_t nr_discards = 0;
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string> samples;
        bool out_of_time = false;
        for (auto* s: shared)
        {
            hashes.insert(s->hashes, s->hashes + s->nr_hashes);
            nr_evaluations += s->nr_evaluations;
            nr_discards += s->nr_discards;
            out_of_time = out_of_time || s->out_of_time;
            for (std::size_t i = 0; i < s->nr_labels; ++i)
            {
                labels[s->labels[i].name] += s->labels[i].count;
            }
            for (std::size_t i = 0; i < s->nr_samples && samples.size() < 6; ++i)
            {
                samples.emplace_back(s->samples[i]);
            }
        }

        std::ofstream stream(out);
        stream << "{\"id\": " << json_string(property.id) << ", \"rule\": " << json_string(property.rule)
               << ", \"evaluations\": " << nr_evaluations << ", \"discards\": " << nr_discards
               << ", \"distinct_nontrivial\": " << hashes.size() << ", \"planned\": " << nr_cases
               << ", \"out_of_time\": " << (out_of_time ? "true" : "false") << ", \"wall_s\": " << now() - start
               << ",\n\"labels\": {";
        bool first = true;
        for (auto const& [name, count]: labels)
        {
            stream << (first ? "" : ", ") << json_string(name) << ": " << count;
            first = false;
        }
        stream << "},\n\"samples\": [";
        for (std::size_t i = 0; i < samples.size(); ++i)
        {
            stream << (i ? ",\n" : "") << json_string(samples[i]);
        }
        stream << "],\n\"probes\": [";
        for (std::size_t i = 0; i < property.probes.size(); ++i)
        {
            stream << (i ? ", " : "") << json_string(property.probes[i].first);
        }
        stream << "],\n\"reproduced\": " << (reproduced ? "true" : "false")
               << ", \"batch\": " << (batch.empty() ? "null" : batch) << ", \"failure\": ";
        if (any_failure)
        {
            write_outcome(stream, failure);
        }
        else
        {
            stream << "null";
        }
        stream << "}\n";
        return any_failure ? 1 : 0;
    }

}  // namespace pt
