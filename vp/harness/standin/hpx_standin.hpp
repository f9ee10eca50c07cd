// Stand-in for the parts of HPX that LUE's framework uses. All "localities" and tasks live in a single
// thread. Tasks are fibers. Which of the tasks that can run is run next is decided by a generator that is
// seeded by the test case, so an execution is a function of the case, and can be replayed.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <boost/context/fiber.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <format>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>


#define HPX_ASSERT(...) (static_cast<bool>(__VA_ARGS__) ? void(0) : ::hpx::sim::assertion_failed(#__VA_ARGS__, __FILE__, __LINE__))
#define HPX_ASSERT_MSG(condition, ...) HPX_ASSERT(condition)
#define HPX_PP_CAT_(a, b) a##b
#define HPX_PP_CAT(a, b) HPX_PP_CAT_(a, b)
#define HPX_PP_STRINGIZE_(a) #a
#define HPX_PP_STRINGIZE(a) HPX_PP_STRINGIZE_(a)
#define HPX_UNUSED(x) (void)(x)

namespace hpx::sim {

    [[noreturn]] inline void assertion_failed(char const* expression, char const* file, int line)
    {
        std::fprintf(stderr, "%s:%d: assertion failed: %s\n", file, line, expression);
        std::fflush(stderr);
        std::abort();
    }

    // Raised when nothing can run anymore while something is being waited for
    struct Deadlock: std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    using Function = std::move_only_function<void()>;

    struct Task
    {
        Function function;
        boost::context::fiber context;
        std::uint32_t locality{};
        bool started{false};
        bool done{false};
    };

    struct Statistics
    {
        std::size_t nr_tasks{};
        std::size_t nr_suspensions{};
        std::size_t nr_choices{};   // Number of times more than one task could run
        std::size_t nr_remote{};    // Number of calls to other localities
        std::size_t nr_components{};
    };

    class Scheduler
    {
        public:

            enum class Mode { fifo, lifo, random };

            static auto instance() -> Scheduler&
            {
                static Scheduler* scheduler{new Scheduler{}};
                return *scheduler;
            }

            void reset(std::uint64_t seed, Mode mode, std::uint32_t nr_localities, unsigned yield_percentage)
            {
                _ready.clear();
                _blocked.clear();
                _generator.seed(seed);
                _mode = mode;
                _nr_localities = nr_localities;
                _yield_percentage = yield_percentage;
                _statistics = {};
                _current.reset();
                _main_locality = 0;
            }

            auto nr_localities() const -> std::uint32_t { return _nr_localities; }

            auto locality() const -> std::uint32_t { return _current ? _current->locality : _main_locality; }

            auto statistics() -> Statistics& { return _statistics; }

            void post(Function function, std::uint32_t locality)
            {
                auto task = std::make_shared<Task>();
                task->function = std::move(function);
                task->locality = locality;
                ++_statistics.nr_tasks;
                _ready.push_back(std::move(task));
            }

            void post(Function function) { post(std::move(function), locality()); }

            // Let other tasks run
            void yield()
            {
                if (_current)
                {
                    _ready.push_back(_current);
                    switch_to_scheduler();
                }
                else
                {
                    run_one();
                }
            }

            // A place where HPX may suspend the current task
            void suspension_point()
            {
                if (_current && _yield_percentage > 0 && _generator() % 100 < _yield_percentage) yield();
            }

            // Block the current task until the function passed in has been called
            template<typename IsReady, typename Subscribe>
            void wait(IsReady is_ready, Subscribe subscribe, char const* what)
            {
                if (is_ready()) return;

                if (_current)
                {
                    ++_statistics.nr_suspensions;
                    std::shared_ptr<Task> task{_current};
                    _blocked.insert(task);
                    subscribe([this, task]() {
                        _blocked.erase(task);
                        _ready.push_back(task);
                    });
                    switch_to_scheduler();
                }
                else
                {
                    while (!is_ready())
                    {
                        if (!run_one()) throw Deadlock{std::string{"nothing can run while waiting for "} + what};
                    }
                }
            }

            auto run_one() -> bool
            {
                HPX_ASSERT(!_current);
                if (_ready.empty()) return false;
                std::size_t idx{0};
                if (_ready.size() > 1) ++_statistics.nr_choices;
                switch (_mode)
                {
                    case Mode::fifo: idx = 0; break;
                    case Mode::lifo: idx = _ready.size() - 1; break;
                    case Mode::random: idx = _generator() % _ready.size(); break;
                }
                std::shared_ptr<Task> task{std::move(_ready[idx])};
                _ready.erase(_ready.begin() + static_cast<std::ptrdiff_t>(idx));
                resume(task);
                return true;
            }

            // Run everything that can run. Returns the number of tasks that never finished.
            auto drain() -> std::size_t
            {
                while (run_one()) {}
                return _blocked.size();
            }

            // Forget about tasks that haven't finished. Their stacks are not unwound.
            void abandon()
            {
                for (auto& task : _ready) leak(task);
                for (auto const& task : _blocked) leak(task);
                _ready.clear();
                _blocked.clear();
            }

            auto generator() -> std::mt19937_64& { return _generator; }

        private:

            static void leak(std::shared_ptr<Task> const& task) { new std::shared_ptr<Task>{task}; }

            void resume(std::shared_ptr<Task> const& task)
            {
                _current = task;
                if (!task->started)
                {
                    task->started = true;
                    Task* raw{task.get()};
                    task->context = boost::context::fiber{
                        std::allocator_arg,
                        _stacks,
                        [this, raw](boost::context::fiber&& main)
                        {
                            _main = std::move(main);
                            raw->function();
                            // What the function refers to lives on for a while after its result is available
                            suspension_point();
                            raw->function = nullptr;
                            raw->done = true;
                            return std::move(_main);
                        }};
                }
                auto context = std::move(task->context).resume();
                if (!task->done) task->context = std::move(context);
                _current.reset();
            }

            void switch_to_scheduler() { _main = std::move(_main).resume(); }

            std::deque<std::shared_ptr<Task>> _ready;
            std::set<std::shared_ptr<Task>> _blocked;
            std::shared_ptr<Task> _current;
            boost::context::fiber _main;
            boost::context::pooled_fixedsize_stack _stacks{1024 * 1024};
            std::mt19937_64 _generator;
            Mode _mode{Mode::fifo};
            std::uint32_t _nr_localities{1};
            std::uint32_t _main_locality{0};
            unsigned _yield_percentage{0};
            Statistics _statistics;
    };

    inline auto scheduler() -> Scheduler& { return Scheduler::instance(); }

    // Shared state of futures ---------------------------------------------------------------------------
    struct StateBase
    {
        bool ready{false};
        std::exception_ptr exception;
        std::vector<Function> continuations;

        void on_ready(Function function)
        {
            if (ready) function();
            else continuations.push_back(std::move(function));
        }

        void mark_ready()
        {
            HPX_ASSERT(!ready);
            ready = true;
            auto functions = std::move(continuations);
            continuations.clear();
            for (auto& function : functions) function();
        }

        void set_exception(std::exception_ptr e)
        {
            exception = std::move(e);
            mark_ready();
        }

        void wait()
        {
            scheduler().wait(
                [this]() { return ready; },
                [this](Function function) { continuations.push_back(std::move(function)); },
                "a future");
        }
    };

    struct Void {};

    template<typename T>
    struct State: StateBase
    {
        using Value = std::conditional_t<std::is_void_v<T>, Void, T>;
        std::optional<Value> value;

        template<typename... Args>
        void set_value(Args&&... args)
        {
            value.emplace(std::forward<Args>(args)...);
            mark_ready();
        }

        void rethrow() const
        {
            if (exception) std::rethrow_exception(exception);
        }
    };

    template<typename T>
    using StatePtr = std::shared_ptr<State<T>>;

    template<typename T, typename F>
    void fulfil(StatePtr<T> const& state, F&& function)
    {
        std::exception_ptr exception;

        try
        {
            if constexpr (std::is_void_v<T>)
            {
                std::forward<F>(function)();
                state->value.emplace();
            }
            else
            {
                state->value.emplace(std::forward<F>(function)());
            }
        }
        catch (Deadlock const&)
        {
            throw;
        }
        catch (std::exception const&)
        {
            exception = std::current_exception();
        }
        catch (boost::context::detail::forced_unwind const&)
        {
            throw;
        }

        state->exception = exception;
        state->mark_ready();
    }

}  // namespace hpx::sim


namespace hpx {

    template<typename T> class future;
    template<typename T> class shared_future;

    namespace components {
        template<typename Derived, typename Server> class client_base;
    }

    namespace launch {
        struct async_policy {};
        struct sync_policy {};
        struct fork_policy {};
        struct apply_policy {};
        struct deferred_policy {};
        inline constexpr async_policy async{};
        inline constexpr sync_policy sync{};
        inline constexpr fork_policy fork{};
        inline constexpr apply_policy apply{};
        inline constexpr deferred_policy deferred{};
    }

    namespace sim {

        template<typename T> inline constexpr bool is_policy = false;
        template<> inline constexpr bool is_policy<launch::async_policy> = true;
        template<> inline constexpr bool is_policy<launch::sync_policy> = true;
        template<> inline constexpr bool is_policy<launch::fork_policy> = true;
        template<> inline constexpr bool is_policy<launch::apply_policy> = true;
        template<> inline constexpr bool is_policy<launch::deferred_policy> = true;

        template<typename T> struct FutureTraits: std::false_type { using Result = T; static constexpr bool unique{false}; };
        template<typename T> struct FutureTraits<future<T>>: std::true_type { using Result = T; static constexpr bool unique{true}; };
        template<typename T> struct FutureTraits<shared_future<T>>: std::true_type { using Result = T; static constexpr bool unique{false}; };

        template<typename T> inline constexpr bool is_plain_future = FutureTraits<std::remove_cvref_t<T>>::value;

        struct ClientTag {};
        template<typename T> inline constexpr bool is_client = std::is_base_of_v<ClientTag, std::remove_cvref_t<T>>;
        template<typename T> inline constexpr bool is_future_like = is_plain_future<T> || is_client<T>;

        // Connect a future-like thing (whose state is a T) to a state
        template<typename T, typename Inner>
        void forward_to(StatePtr<T> state, Inner&& inner);

    }  // namespace sim

    namespace traits {
        template<typename T> struct is_future: std::bool_constant<sim::is_future_like<T>> {};
        template<typename T> inline constexpr bool is_future_v = is_future<T>::value;
    }

    template<typename T>
    class [[nodiscard]] future
    {
        public:

            using result_type = T;

            future() = default;
            explicit future(sim::StatePtr<T> state): _state{std::move(state)} {}
            future(future&&) noexcept = default;
            future(future const&) = delete;
            auto operator=(future&&) noexcept -> future& = default;
            auto operator=(future const&) -> future& = delete;

            // Unwrap
            future(future<future<T>>&& other): _state{std::make_shared<sim::State<T>>()} { unwrap(std::move(other)); }
            future(future<shared_future<T>>&& other): _state{std::make_shared<sim::State<T>>()} { unwrap(std::move(other)); }

            // Forget the value
            template<typename U, typename = std::enable_if_t<std::is_void_v<T> && !std::is_void_v<U> && !std::is_same_v<U, future<void>> && !std::is_same_v<U, shared_future<void>>>>
            future(future<U>&& other): _state{std::make_shared<sim::State<T>>()}
            {
                auto other_state = other.release();
                other_state->on_ready(
                    [state = _state, other_state]()
                    {
                        state->exception = other_state->exception;
                        state->value.emplace();
                        state->mark_ready();
                    });
            }

            auto valid() const -> bool { return static_cast<bool>(_state); }
            auto is_ready() const -> bool { return _state && _state->ready; }
            auto has_exception() const -> bool { return _state && _state->ready && _state->exception; }
            auto has_value() const -> bool { return _state && _state->ready && !_state->exception; }
            void wait() const { check(); _state->wait(); }

            auto get() -> T
            {
                check();
                _state->wait();
                auto state = std::move(_state);
                _state.reset();
                state->rethrow();
                if constexpr (!std::is_void_v<T>) return std::move(*state->value);
            }

            auto share() -> shared_future<T> { return shared_future<T>{std::move(_state)}; }

            template<typename F>
            auto then(F&& function) { return then(launch::async, std::forward<F>(function)); }

            template<typename Policy, typename F>
            auto then(Policy policy, F&& function);

            auto state() const -> sim::StatePtr<T> const& { return _state; }
            auto release() -> sim::StatePtr<T> { check(); return std::move(_state); }

        private:

            void check() const { if (!_state) throw std::runtime_error("this future has no valid shared state"); }

            template<typename Other>
            void unwrap(Other&& other)
            {
                auto outer = other.release();
                outer->on_ready(
                    [state = _state, outer]()
                    {
                        if (outer->exception) state->set_exception(outer->exception);
                        else sim::forward_to(state, std::move(*outer->value));
                    });
            }

            sim::StatePtr<T> _state;
    };

    template<typename T>
    class shared_future
    {
        public:

            using result_type = T;

            shared_future() = default;
            explicit shared_future(sim::StatePtr<T> state): _state{std::move(state)} {}
            shared_future(future<T>&& other): _state{other.valid() ? other.release() : nullptr} {}
            shared_future(shared_future const&) = default;
            shared_future(shared_future&&) noexcept = default;
            auto operator=(shared_future const&) -> shared_future& = default;
            auto operator=(shared_future&&) noexcept -> shared_future& = default;

            shared_future(future<shared_future<T>>&& other): shared_future{future<T>{std::move(other)}} {}
            shared_future(future<future<T>>&& other): shared_future{future<T>{std::move(other)}} {}

            template<typename U, typename = std::enable_if_t<std::is_void_v<T> && !std::is_void_v<U>>>
            shared_future(future<U>&& other): shared_future{future<void>{std::move(other)}} {}

            template<typename U, typename = std::enable_if_t<std::is_void_v<T> && !std::is_void_v<U>>>
            shared_future(shared_future<U> const& other): _state{std::make_shared<sim::State<T>>()}
            {
                auto other_state = other.state();
                other_state->on_ready(
                    [state = _state, other_state]()
                    {
                        state->exception = other_state->exception;
                        state->value.emplace();
                        state->mark_ready();
                    });
            }

            auto valid() const -> bool { return static_cast<bool>(_state); }
            auto is_ready() const -> bool { return _state && _state->ready; }
            auto has_exception() const -> bool { return _state && _state->ready && _state->exception; }
            auto has_value() const -> bool { return _state && _state->ready && !_state->exception; }
            void wait() const { check(); _state->wait(); }

            auto get() const -> std::add_lvalue_reference_t<std::add_const_t<T>>
            {
                check();
                _state->wait();
                _state->rethrow();
                if constexpr (!std::is_void_v<T>) return *_state->value;
            }

            template<typename F>
            auto then(F&& function) const { return then(launch::async, std::forward<F>(function)); }

            template<typename Policy, typename F>
            auto then(Policy policy, F&& function) const;

            auto state() const -> sim::StatePtr<T> const& { return _state; }

        private:

            void check() const { if (!_state) throw std::runtime_error("this future has no valid shared state"); }

            sim::StatePtr<T> _state;
    };

    template<typename T>
    class promise
    {
        public:

            promise(): _state{std::make_shared<sim::State<T>>()} {}
            promise(promise&&) noexcept = default;
            auto operator=(promise&&) noexcept -> promise& = default;

            auto get_future() -> future<T> { return future<T>{_state}; }
            auto get_shared_future() -> shared_future<T> { return shared_future<T>{_state}; }

            template<typename... Args>
            void set_value(Args&&... args)
            {
                if (_state->ready) throw std::runtime_error("promise already satisfied");
                _state->set_value(std::forward<Args>(args)...);
            }

            void set_exception(std::exception_ptr exception) { _state->set_exception(std::move(exception)); }

        private:

            sim::StatePtr<T> _state;
    };

    namespace sim {

        template<typename T, typename Inner>
        void forward_to(StatePtr<T> state, Inner&& inner)
        {
            if (!inner.valid())
            {
                state->set_exception(std::make_exception_ptr(std::runtime_error("no state")));
                return;
            }

            auto inner_state = inner.state();
            inner_state->on_ready(
                [state, inner_state]()
                {
                    if (inner_state->exception) state->set_exception(inner_state->exception);
                    else if constexpr (std::is_void_v<T>) state->set_value();
                    else if constexpr (FutureTraits<std::remove_cvref_t<Inner>>::unique) state->set_value(std::move(*inner_state->value));
                    else if constexpr (std::is_copy_constructible_v<T>) state->set_value(*inner_state->value);
                    else state->set_value(std::move(*inner_state->value));
                });
        }

        template<typename R>
        struct UnwrapOnce { using type = R; };
        template<typename R>
        struct UnwrapOnce<future<R>> { using type = R; };

        // Attach a continuation. The thing passed to the continuation is made by the argument function.
        template<typename Policy, typename StatePointer, typename MakeArgument, typename F>
        auto attach(Policy, StatePointer const& antecedent, MakeArgument make_argument, F&& function)
        {
            using Argument = std::invoke_result_t<MakeArgument>;
            using Raw = std::invoke_result_t<std::decay_t<F>&, Argument>;
            using Result = typename UnwrapOnce<Raw>::type;
            auto state = std::make_shared<State<Raw>>();
            auto locality = scheduler().locality();

            Function run{
                [state, make_argument = std::move(make_argument), function = std::decay_t<F>(std::forward<F>(function))]() mutable
                { fulfil<Raw>(state, [&]() -> Raw { return std::invoke(function, make_argument()); }); }};

            antecedent->on_ready(
                [run = std::move(run), locality]() mutable
                {
                    if constexpr (std::is_same_v<Policy, launch::sync_policy>) run();
                    else scheduler().post(std::move(run), locality);
                });

            if constexpr (std::is_same_v<Raw, Result>) return future<Result>{state};
            else return future<Result>{future<Raw>{state}};
        }

    }  // namespace sim

    template<typename T>
    template<typename Policy, typename F>
    auto future<T>::then(Policy policy, F&& function)
    {
        auto antecedent = release();
        return sim::attach(policy, antecedent, [antecedent]() { return future<T>{antecedent}; }, std::forward<F>(function));
    }

    template<typename T>
    template<typename Policy, typename F>
    auto shared_future<T>::then(Policy policy, F&& function) const
    {
        check();
        return sim::attach(policy, _state, [antecedent = _state]() { return shared_future<T>{antecedent}; }, std::forward<F>(function));
    }

    template<typename T>
    auto make_ready_future(T&& value) -> future<std::decay_t<T>>
    {
        auto state = std::make_shared<sim::State<std::decay_t<T>>>();
        state->set_value(std::forward<T>(value));
        return future<std::decay_t<T>>{std::move(state)};
    }

    template<typename T, typename... Args>
        requires(!std::is_void_v<T>)
    auto make_ready_future(Args&&... args) -> future<T>
    {
        auto state = std::make_shared<sim::State<T>>();
        state->set_value(std::forward<Args>(args)...);
        return future<T>{std::move(state)};
    }

    template<typename T>
        requires(std::is_void_v<T>)
    auto make_ready_future() -> future<void>
    {
        auto state = std::make_shared<sim::State<void>>();
        state->set_value();
        return future<void>{std::move(state)};
    }

    inline auto make_ready_future() -> future<void>
    {
        auto state = std::make_shared<sim::State<void>>();
        state->set_value();
        return future<void>{std::move(state)};
    }

    template<typename T>
    auto make_exceptional_future(std::exception_ptr exception) -> future<T>
    {
        auto state = std::make_shared<sim::State<T>>();
        state->set_exception(std::move(exception));
        return future<T>{std::move(state)};
    }


    // Tuples --------------------------------------------------------------------------------------------
    using std::get;
    using std::ignore;
    using std::make_tuple;
    using std::tie;
    using std::tuple;
    using std::tuple_element;
    using std::tuple_size;
    using std::forward_as_tuple;

    //! Mutexes that suspend the task, not the thread, when they are taken
    class mutex
    {
        public:

            mutex() = default;
            mutex(mutex const&) = delete;
            auto operator=(mutex const&) -> mutex& = delete;

            void lock()
            {
                sim::scheduler().suspension_point();
                while (_taken)
                {
                    sim::scheduler().wait(
                        [this]() { return !_taken; },
                        [this](auto resume) { _waiting.push_back(std::move(resume)); },
                        "a mutex");
                }
                _taken = true;
            }

            auto try_lock() -> bool
            {
                if (_taken) return false;
                _taken = true;
                return true;
            }

            void unlock()
            {
                HPX_ASSERT(_taken);
                _taken = false;
                auto waiting = std::move(_waiting);
                _waiting.clear();
                for (auto& resume : waiting) resume();
            }

        private:

            bool _taken{false};
            std::vector<std::function<void()>> _waiting;
    };

    using spinlock = mutex;

    class shared_mutex
    {
        public:

            shared_mutex() = default;
            shared_mutex(shared_mutex const&) = delete;
            auto operator=(shared_mutex const&) -> shared_mutex& = delete;

            void lock() { take([this]() { return !_taken && _nr_shared == 0; }); _taken = true; }
            void lock_shared() { take([this]() { return !_taken; }); ++_nr_shared; }
            void unlock() { HPX_ASSERT(_taken); _taken = false; notify(); }
            void unlock_shared() { HPX_ASSERT(_nr_shared > 0); --_nr_shared; notify(); }

        private:

            template<typename IsFree>
            void take(IsFree is_free)
            {
                sim::scheduler().suspension_point();
                while (!is_free())
                {
                    sim::scheduler().wait(
                        is_free, [this](auto resume) { _waiting.push_back(std::move(resume)); }, "a shared mutex");
                }
            }

            void notify()
            {
                auto waiting = std::move(_waiting);
                _waiting.clear();
                for (auto& resume : waiting) resume();
            }

            bool _taken{false};
            int _nr_shared{0};
            std::vector<std::function<void()>> _waiting;
    };

    using condition_variable_any = std::condition_variable_any;
    inline auto& cout = std::cout;


    // Identifiers ---------------------------------------------------------------------------------------
    namespace sim {

        struct Identity
        {
            std::uint32_t locality{};
            std::uint64_t number{};  // 0: the locality itself
            std::shared_ptr<void> component;
            void const* type{};
        };

    }  // namespace sim

    class id_type
    {
        public:

            id_type() = default;
            explicit id_type(std::shared_ptr<sim::Identity const> identity): _identity{std::move(identity)} {}

            explicit operator bool() const { return static_cast<bool>(_identity); }
            auto operator==(id_type const& other) const -> bool { return key() == other.key(); }
            auto operator<(id_type const& other) const -> bool { return key() < other.key(); }
            auto operator<=>(id_type const& other) const { return key() <=> other.key(); }
            auto identity() const -> sim::Identity const& { HPX_ASSERT(_identity); return *_identity; }

            friend auto operator<<(std::ostream& stream, id_type const& id) -> std::ostream&
            {
                return id ? stream << "id(" << id.identity().locality << ", " << id.identity().number << ")" : stream << "id()";
            }

        private:

            auto key() const -> std::pair<std::int64_t, std::uint64_t>
            {
                return _identity ? std::pair<std::int64_t, std::uint64_t>{_identity->locality, _identity->number}
                                 : std::pair<std::int64_t, std::uint64_t>{-1, 0};
            }

            std::shared_ptr<sim::Identity const> _identity;
    };

    inline id_type const invalid_id{};

    namespace sim {

        inline auto locality_id(std::uint32_t locality) -> id_type
        {
            return id_type{std::make_shared<Identity const>(Identity{locality, 0, nullptr, nullptr})};
        }

        inline auto next_number() -> std::uint64_t
        {
            static std::uint64_t number{0};
            return ++number;
        }

        template<typename T>
        inline int type_tag{};

    }  // namespace sim

    inline auto find_here() -> id_type { return sim::locality_id(sim::scheduler().locality()); }
    inline auto find_root_locality() -> id_type { return sim::locality_id(0); }

    inline auto find_all_localities() -> std::vector<id_type>
    {
        std::vector<id_type> result;
        for (std::uint32_t idx = 0; idx < sim::scheduler().nr_localities(); ++idx) result.push_back(sim::locality_id(idx));
        return result;
    }

    inline auto find_remote_localities() -> std::vector<id_type>
    {
        std::vector<id_type> result;
        for (auto const& id : find_all_localities()) if (!(id == find_here())) result.push_back(id);
        return result;
    }

    inline auto get_locality_id() -> std::uint32_t { return sim::scheduler().locality(); }
    inline auto get_num_localities() -> future<std::uint32_t> { return make_ready_future<std::uint32_t>(sim::scheduler().nr_localities()); }
    inline auto get_num_localities(launch::sync_policy) -> std::uint32_t { return sim::scheduler().nr_localities(); }
    inline auto get_initial_num_localities() -> std::uint32_t { return sim::scheduler().nr_localities(); }
    inline auto get_os_thread_count() -> std::size_t { return 4; }
    inline auto get_num_worker_threads() -> std::size_t { return 4; }
    inline auto get_worker_thread_num() -> std::size_t { return 0; }
    inline auto get_config_entry(std::string const&, std::string const& default_value) -> std::string { return default_value; }
    inline auto get_locality_name() -> std::string { return "locality"; }
    inline auto get_thread_name() -> std::string { return "thread"; }
    namespace agas {
        inline auto get_locality_id() -> std::uint32_t { return hpx::get_locality_id(); }
        inline void garbage_collect() {}
    }
    namespace naming { using hpx::id_type; inline auto get_locality_id_from_id(id_type const& id) -> std::uint32_t { return id.identity().locality; } }

    inline auto get_colocation_id(launch::sync_policy, id_type const& id) -> id_type { return sim::locality_id(id.identity().locality); }
    inline auto get_colocation_id(id_type const& id) -> future<id_type> { return make_ready_future<id_type>(sim::locality_id(id.identity().locality)); }

    namespace this_thread {
        template<typename D> void sleep_for(D const&) { sim::scheduler().yield(); }
        inline void yield() { sim::scheduler().yield(); }
        struct disable_interruption {};
    }


    // Serialization -------------------------------------------------------------------------------------
    namespace serialization {

        class output_archive;
        class input_archive;

        template<typename T> struct Array { T* data; std::size_t size; };

        template<typename T, typename N>
        auto make_array(T* data, N size) -> Array<T> { return {data, static_cast<std::size_t>(size)}; }

        template<typename Base, typename Derived>
        auto base_object(Derived& derived) -> std::conditional_t<std::is_const_v<Derived>, Base const&, Base&> { return derived; }

        class access
        {
            public:

                template<typename Archive, typename T>
                static auto serialize(Archive& archive, T& object, int) -> decltype(object.serialize(archive, 0u), void())
                {
                    object.serialize(archive, 0u);
                }
        };

        namespace detail {
            template<typename Archive, typename T>
            concept HasMember = requires(Archive& archive, T& object) { access::serialize(archive, object, 0); };
            template<typename Archive, typename T>
            concept HasFree = requires(Archive& archive, T& object) { serialize(archive, object, 0u); };
        }

        class output_archive
        {
            public:

                template<typename T> auto operator&(T const& object) -> output_archive& { save(object); return *this; }
                template<typename T> auto operator<<(T const& object) -> output_archive& { save(object); return *this; }

                std::deque<std::any> slots;

            private:

                template<typename T> void save(T const& object);
                template<typename T> void save(Array<T> const& array)
                {
                    using E = std::remove_const_t<T>;
                    if constexpr (std::is_arithmetic_v<E>) slots.emplace_back(std::vector<E>(array.data, array.data + array.size));
                    else for (std::size_t i = 0; i < array.size; ++i) save(array.data[i]);
                }
        };

        class input_archive
        {
            public:

                explicit input_archive(std::deque<std::any>&& s): slots(std::move(s)) {}

                template<typename T> auto operator&(T&& object) -> input_archive& { load(object); return *this; }
                template<typename T> auto operator>>(T&& object) -> input_archive& { load(object); return *this; }

                template<typename T> auto pop() -> T
                {
                    HPX_ASSERT(!slots.empty());
                    T* value{std::any_cast<T>(&slots.front())};
                    if (!value)
                    {
                        std::fprintf(stderr, "expected %s in archive, found %s\n", typeid(T).name(), slots.front().type().name());
                        HPX_ASSERT(value);
                    }
                    T result{std::move(*value)};
                    slots.pop_front();
                    return result;
                }

                std::deque<std::any> slots;

            private:

                template<typename T> void load(T& object);
                template<typename T> void load(Array<T> const& array) { load_array(array); }
                template<typename T> void load(Array<T>& array) { load_array(array); }
                template<typename T> void load_array(Array<T> const& array)
                {
                    if constexpr (std::is_arithmetic_v<T>)
                    {
                        auto values = pop<std::vector<T>>();
                        HPX_ASSERT(values.size() == array.size);
                        std::copy(values.begin(), values.end(), array.data);
                    }
                    else for (std::size_t i = 0; i < array.size; ++i) load(array.data[i]);
                }
        };

        namespace detail {

            template<typename T> struct IsVector: std::false_type {};
            template<typename T, typename A> struct IsVector<std::vector<T, A>>: std::true_type {};
            template<typename T, typename A> struct IsVector<std::deque<T, A>>: std::true_type {};
            template<typename T, typename A> struct IsVector<std::list<T, A>>: std::true_type {};
            template<typename T> struct IsSet: std::false_type {};
            template<typename T, typename C, typename A> struct IsSet<std::set<T, C, A>>: std::true_type {};
            template<typename T, typename C, typename A> struct IsSet<std::multiset<T, C, A>>: std::true_type {};
            template<typename T> struct IsMap: std::false_type {};
            template<typename K, typename V, typename C, typename A> struct IsMap<std::map<K, V, C, A>>: std::true_type {};
            template<typename K, typename V, typename H, typename E, typename A> struct IsMap<std::unordered_map<K, V, H, E, A>>: std::true_type {};
            template<typename T> struct IsArray: std::false_type {};
            template<typename T, std::size_t n> struct IsArray<std::array<T, n>>: std::true_type {};
            template<typename T> struct IsTuple: std::false_type {};
            template<typename... T> struct IsTuple<std::tuple<T...>>: std::true_type {};
            template<typename A, typename B> struct IsTuple<std::pair<A, B>>: std::true_type {};
            template<typename T> struct IsOptional: std::false_type {};
            template<typename T> struct IsOptional<std::optional<T>>: std::true_type {};

            // A future that travels along with the data
            struct Handle { std::shared_ptr<sim::StateBase> state; };

            template<typename E, typename A>
            auto as_vector(std::vector<E, A>& object) -> std::vector<E, A>& { return object; }
            template<typename E, typename A>
            auto as_vector(std::vector<E, A> const& object) -> std::vector<E, A> const& { return object; }
            template<typename T>
            concept IsDerivedFromVector = requires(T const& object) { as_vector(object); };

        }  // namespace detail

        template<typename T>
        void output_archive::save(T const& object)
        {
            if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, id_type>)
                slots.emplace_back(object);
            else if constexpr (sim::is_future_like<T>) slots.emplace_back(detail::Handle{object.state()});
            else if constexpr (detail::HasMember<output_archive, T const>) access::serialize(*this, object, 0);
            else if constexpr (detail::HasMember<output_archive, T>) access::serialize(*this, const_cast<T&>(object), 0);
            else if constexpr (detail::IsMap<T>::value)
            {
                slots.emplace_back(object.size());
                for (auto const& [key, value] : object) { save(key); save(value); }
            }
            else if constexpr (detail::IsVector<T>::value || detail::IsSet<T>::value)
            {
                slots.emplace_back(object.size());
                for (auto const& value : object) save(value);
            }
            else if constexpr (detail::IsArray<T>::value) for (auto const& value : object) save(value);
            else if constexpr (detail::IsTuple<T>::value) std::apply([this](auto const&... values) { (save(values), ...); }, object);
            else if constexpr (detail::IsOptional<T>::value)
            {
                slots.emplace_back(object.has_value());
                if (object) save(*object);
            }
            else if constexpr (detail::HasFree<output_archive, T const>) serialize(*this, object, 0u);
            else if constexpr (detail::HasFree<output_archive, T>) serialize(*this, const_cast<T&>(object), 0u);
            else if constexpr (detail::IsDerivedFromVector<T>) save(detail::as_vector(object));
            else static_assert(std::is_empty_v<T>, "type cannot be serialized");
        }

        template<typename T>
        void input_archive::load(T& object)
        {
            if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, id_type>)
                object = pop<T>();
            else if constexpr (sim::is_future_like<T>)
            {
                using State = typename std::remove_cvref_t<decltype(object.state())>::element_type;
                auto state = std::static_pointer_cast<State>(pop<detail::Handle>().state);
                if constexpr (sim::is_client<T>) object.connect(std::move(state));
                else object = T{std::move(state)};
            }
            else if constexpr (detail::HasMember<input_archive, T>) access::serialize(*this, object, 0);
            else if constexpr (detail::IsMap<T>::value)
            {
                auto size = pop<decltype(object.size())>();
                object.clear();
                for (std::size_t i = 0; i < size; ++i)
                {
                    typename T::key_type key{};
                    typename T::mapped_type value{};
                    load(key);
                    load(value);
                    object.emplace(std::move(key), std::move(value));
                }
            }
            else if constexpr (detail::IsVector<T>::value)
            {
                auto size = pop<decltype(object.size())>();
                object.clear();
                for (std::size_t i = 0; i < size; ++i)
                {
                    typename T::value_type value{};
                    load(value);
                    object.push_back(std::move(value));
                }
            }
            else if constexpr (detail::IsSet<T>::value)
            {
                auto size = pop<decltype(object.size())>();
                object.clear();
                for (std::size_t i = 0; i < size; ++i)
                {
                    typename T::value_type value{};
                    load(value);
                    object.insert(std::move(value));
                }
            }
            else if constexpr (detail::IsArray<T>::value) for (auto& value : object) load(value);
            else if constexpr (detail::IsTuple<T>::value) std::apply([this](auto&... values) { (load(values), ...); }, object);
            else if constexpr (detail::IsOptional<T>::value)
            {
                object.reset();
                if (pop<bool>())
                {
                    typename T::value_type value{};
                    load(value);
                    object.emplace(std::move(value));
                }
            }
            else if constexpr (detail::HasFree<input_archive, T>) serialize(*this, object, 0u);
            else if constexpr (detail::IsDerivedFromVector<T>) load(detail::as_vector(object));
            else static_assert(std::is_empty_v<T>, "type cannot be serialized");
        }

    }  // namespace serialization


    namespace sim {

        // Argument or result of a call to another locality
        template<typename T>
        auto transfer(T&& object, bool const await = false) -> std::remove_cvref_t<T>
        {
            using U = std::remove_cvref_t<T>;

            if constexpr (is_future_like<U> || std::is_arithmetic_v<U> || std::is_enum_v<U> || std::is_same_v<U, id_type>)
            {
                return U(std::forward<T>(object));
            }
            else
            {
                serialization::output_archive output;
                output & object;

                // Futures inside of results must be ready before these are sent
                if (await)
                    for (auto& slot : output.slots)
                        if (auto* handle = std::any_cast<serialization::detail::Handle>(&slot); handle && handle->state) handle->state->wait();
                serialization::input_archive input{std::move(output.slots)};

                // HPX uses the default constructor as well
                U result{};
                input & result;
                HPX_ASSERT(input.slots.empty());
                return result;
            }
        }

    }  // namespace sim


    // Components ----------------------------------------------------------------------------------------
    namespace components {

        template<typename Component>
        class component_base
        {
            public:

                using wrapping_type = Component;
                using base_type_holder = Component;

                component_base() = default;
                component_base(component_base const&) {}
                component_base(component_base&&) noexcept {}
                auto operator=(component_base const&) -> component_base& { return *this; }
                auto operator=(component_base&&) noexcept -> component_base& { return *this; }

                auto get_id() const -> id_type
                {
                    auto identity = _sim_identity.lock();
                    HPX_ASSERT(identity);
                    return id_type{identity};
                }

                auto get_unmanaged_id() const -> id_type { return get_id(); }

                std::weak_ptr<sim::Identity const> _sim_identity;
        };

        template<typename Component>
        class component {};

        template<typename Base>
        class locking_hook: public Base
        {
            public:
                using Base::Base;
        };

        template<typename Base, typename... >
        class migration_support: public Base
        {
            public:
                using Base::Base;
        };

        template<typename Base>
        class abstract_component_base: public component_base<Base> {};

        template<typename Derived, typename Server>
        class client_base: public sim::ClientTag
        {
            public:

                using server_type = Server;
                using server_component_type = Server;

                client_base() = default;
                explicit client_base(id_type const& id): _state{std::make_shared<sim::State<id_type>>()} { _state->set_value(id); }
                explicit client_base(sim::StatePtr<id_type> state): _state{std::move(state)} {}
                client_base(future<id_type>&& id): _state{id.valid() ? id.release() : nullptr} {}
                client_base(shared_future<id_type> const& id): _state{id.state()} {}

                client_base(future<Derived>&& client): _state{std::make_shared<sim::State<id_type>>()}
                {
                    auto outer = client.release();
                    outer->on_ready(
                        [state = _state, outer]()
                        {
                            if (outer->exception) state->set_exception(outer->exception);
                            else sim::forward_to(state, std::move(*outer->value));
                        });
                }

                client_base(client_base const&) = default;
                client_base(client_base&&) noexcept = default;
                auto operator=(client_base const&) -> client_base& = default;
                auto operator=(client_base&&) noexcept -> client_base& = default;

                explicit operator bool() const { return static_cast<bool>(_state); }
                auto valid() const -> bool { return static_cast<bool>(_state); }
                auto is_ready() const -> bool { return _state && _state->ready; }
                auto has_exception() const -> bool { return _state && _state->ready && _state->exception; }
                auto has_value() const -> bool { return _state && _state->ready && !_state->exception; }

                auto get_id() const -> id_type const&
                {
                    static id_type const invalid{};
                    if (!_state) return invalid;
                    _state->wait();
                    _state->rethrow();
                    return *_state->value;
                }

                auto get() const -> id_type { return get_id(); }
                void wait() const { HPX_ASSERT(_state); _state->wait(); }
                void reset() { _state.reset(); }
                void connect(sim::StatePtr<id_type> state) { _state = std::move(state); }
                void free() { _state.reset(); }
                auto share() const -> shared_future<id_type> { return shared_future<id_type>{_state}; }
                auto operator==(client_base const& other) const -> bool { return get_id() == other.get_id(); }

                template<typename F>
                auto then(F&& function) const { return then(launch::async, std::forward<F>(function)); }

                template<typename Policy, typename F>
                auto then(Policy policy, F&& function) const
                {
                    HPX_ASSERT(_state);
                    return sim::attach(
                        policy, _state, [client = Derived{static_cast<Derived const&>(*this)}]() { return client; }, std::forward<F>(function));
                }

                auto state() const -> sim::StatePtr<id_type> const& { return _state; }

            private:

                sim::StatePtr<id_type> _state;
        };

    }  // namespace components

    namespace sim {

        template<typename Server>
        auto component(id_type const& id) -> std::shared_ptr<Server>
        {
            auto const& identity = id.identity();
            HPX_ASSERT(identity.component);
            HPX_ASSERT(identity.type == &type_tag<Server>);
            return std::static_pointer_cast<Server>(identity.component);
        }

        template<typename Server>
        auto register_component(std::shared_ptr<Server> server, std::uint32_t locality) -> id_type
        {
            auto identity = std::make_shared<Identity const>(Identity{locality, next_number(), server, &type_tag<Server>});
            if constexpr (requires { server->_sim_identity; }) server->_sim_identity = identity;
            ++scheduler().statistics().nr_components;
            return id_type{identity};
        }

        template<typename Server, typename Tuple>
        auto make_component(std::uint32_t locality, Tuple&& arguments) -> future<id_type>
        {
            auto state = std::make_shared<State<id_type>>();
            bool const remote{locality != scheduler().locality()};
            if (remote) ++scheduler().statistics().nr_remote;
            Function create{
                [state, locality, arguments = std::forward<Tuple>(arguments)]() mutable
                {
                    fulfil<id_type>(
                        state,
                        [&]()
                        {
                            return register_component(
                                std::apply([](auto&&... args) { return std::make_shared<Server>(std::move(args)...); }, std::move(arguments)),
                                locality);
                        });
                }};
            if (remote) scheduler().post(std::move(create), locality);
            else create();  // Components created on the current locality are available immediately
            return future<id_type>{state};
        }

    }  // namespace sim

    template<typename Component, typename... Args>
    auto new_(id_type const& locality, Args&&... args)
    {
        auto create = [&]<typename Server>(std::type_identity<Server>)
        {
            auto const number = locality.identity().locality;
            if (number != sim::scheduler().locality())
                return sim::make_component<Server>(number, std::tuple<std::decay_t<Args>...>(sim::transfer(std::forward<Args>(args))...));
            return sim::make_component<Server>(number, std::tuple<std::decay_t<Args>...>(std::forward<Args>(args)...));
        };

        if constexpr (sim::is_client<Component>)
        {
            return Component{create(std::type_identity<typename Component::server_component_type>{})};
        }
        else
        {
            return create(std::type_identity<Component>{});
        }
    }

    template<typename Component, typename... Args>
    auto local_new(Args&&... args) { return new_<Component>(find_here(), std::forward<Args>(args)...); }

    template<typename Server>
    auto get_ptr(launch::sync_policy, id_type const& id) -> std::shared_ptr<Server>
    {
        HPX_ASSERT(id.identity().locality == sim::scheduler().locality());
        return sim::component<Server>(id);
    }

    template<typename Derived, typename Server>
    auto get_ptr(launch::sync_policy, components::client_base<Derived, Server> const& client) -> std::shared_ptr<Server>
    {
        return get_ptr<Server>(launch::sync, client.get_id());
    }


    // Actions -------------------------------------------------------------------------------------------
    namespace sim {

        struct ActionTag {};
        template<typename T> inline constexpr bool is_action = std::is_base_of_v<ActionTag, std::remove_cvref_t<T>>;

        template<typename T> struct MemberClass;
        template<typename C, typename M> struct MemberClass<M C::*> { using type = C; };

        template<typename T> struct Signature;
        template<typename R, typename... A> struct Signature<R (*)(A...)> { using Result = R; using Arguments = std::tuple<std::decay_t<A>...>; };
        template<typename R, typename... A> struct Signature<R (*)(A...) noexcept> { using Result = R; using Arguments = std::tuple<std::decay_t<A>...>; };
        template<typename C, typename R, typename... A> struct Signature<R (C::*)(A...)> { using Result = R; using Arguments = std::tuple<std::decay_t<A>...>; };
        template<typename C, typename R, typename... A> struct Signature<R (C::*)(A...) const> { using Result = R; using Arguments = std::tuple<std::decay_t<A>...>; };

        // Actions whose result is a future return the value of this future
        template<typename R> struct ActionResult { using type = R; };
        template<typename R> struct ActionResult<future<R>> { using type = R; };

        template<typename Arguments, typename... Args>
        auto marshal(bool remote, Args&&... args) -> Arguments
        {
            static_assert(std::tuple_size_v<Arguments> == sizeof...(Args));
            return [&]<std::size_t... i>(std::index_sequence<i...>)
            {
                auto one = [&]<typename Target, typename Source>(std::type_identity<Target>, Source&& source) -> Target
                {
                    if (remote)
                    {
                        if constexpr (std::is_same_v<Target, std::decay_t<Source>>) return transfer(std::forward<Source>(source));
                        else return transfer(Target(std::forward<Source>(source)));
                    }
                    return Target(std::forward<Source>(source));
                };
                return Arguments{one(std::type_identity<std::tuple_element_t<i, Arguments>>{}, std::forward<Args>(args))...};
            }(std::index_sequence_for<Args...>{});
        }

        template<auto function>
        class Action: public ActionTag
        {
            public:

                using Pointer = decltype(function);
                using Raw = typename Signature<Pointer>::Result;
                using result_type = typename ActionResult<std::remove_cvref_t<Raw>>::type;
                using remote_result_type = result_type;
                using local_result_type = result_type;
                using Arguments = typename Signature<Pointer>::Arguments;

                template<typename... Args>
                static auto launch_at(id_type const& id, Args&&... args) -> future<result_type>
                {
                    auto const number = id.identity().locality;
                    bool const remote{number != scheduler().locality()};
                    if (remote) ++scheduler().statistics().nr_remote;

                    auto state = std::make_shared<State<result_type>>();

                    auto run = [id, state, remote, arguments = marshal<Arguments>(remote, std::forward<Args>(args)...)]() mutable
                    {
                        fulfil<result_type>(
                            state,
                            [&]() -> result_type
                            {
                                auto call = [&](auto&&... values) -> Raw
                                {
                                    if constexpr (std::is_member_function_pointer_v<Pointer>)
                                    {
                                        auto server = component<typename MemberClass<Pointer>::type>(id);
                                        return ((*server).*function)(std::forward<decltype(values)>(values)...);
                                    }
                                    else
                                    {
                                        return function(std::forward<decltype(values)>(values)...);
                                    }
                                };

                                auto unwrap = [&]() -> result_type
                                {
                                    if constexpr (std::is_same_v<std::remove_cvref_t<Raw>, result_type>) return std::apply(call, std::move(arguments));
                                    else return std::apply(call, std::move(arguments)).get();
                                };

                                if constexpr (std::is_void_v<result_type>) unwrap();
                                else if (remote) return transfer(unwrap(), true);
                                else return unwrap();
                            });
                    };

                    scheduler().post(std::move(run), number);
                    return future<result_type>{state};
                }

                template<typename... Args>
                auto operator()(id_type const& id, Args&&... args) const -> result_type
                {
                    if (id.identity().locality == scheduler().locality() && scheduler().generator()() % 2 == 0)
                    {
                        // A direct call
                        scheduler().suspension_point();
                        auto arguments = marshal<Arguments>(false, std::forward<Args>(args)...);
                        auto call = [&](auto&&... values) -> Raw
                        {
                            if constexpr (std::is_member_function_pointer_v<Pointer>)
                            {
                                auto server = component<typename MemberClass<Pointer>::type>(id);
                                return ((*server).*function)(std::forward<decltype(values)>(values)...);
                            }
                            else
                            {
                                return function(std::forward<decltype(values)>(values)...);
                            }
                        };
                        if constexpr (std::is_same_v<std::remove_cvref_t<Raw>, result_type>) return std::apply(call, std::move(arguments));
                        else return std::apply(call, std::move(arguments)).get();
                    }

                    return launch_at(id, std::forward<Args>(args)...).get();
                }

                template<typename... Args>
                auto operator()(launch::sync_policy, id_type const& id, Args&&... args) const -> result_type
                {
                    return (*this)(id, std::forward<Args>(args)...);
                }

                template<typename... Args>
                auto operator()(launch::async_policy, id_type const& id, Args&&... args) const -> future<result_type>
                {
                    return launch_at(id, std::forward<Args>(args)...);
                }
        };

    }  // namespace sim

    namespace actions {

        template<typename Pointer, Pointer function, typename Derived = void>
        struct make_action { using type = sim::Action<function>; };

        template<typename Pointer, Pointer function, typename Derived = void>
        using make_action_t = sim::Action<function>;

        template<typename Pointer, Pointer function, typename Derived = void>
        struct make_direct_action { using type = sim::Action<function>; };

    }  // namespace actions

    struct colocated_policy { id_type id; };
    template<typename Client>
    auto colocated(Client const& client) -> id_type
    {
        if constexpr (std::is_same_v<Client, id_type>) return get_colocation_id(launch::sync, client);
        else return get_colocation_id(launch::sync, client.get_id());
    }

#define HPX_DEFINE_COMPONENT_ACTION(Component, method, Name) struct Name: ::hpx::sim::Action<&Component::method> {};
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION(Component, method, Name) HPX_DEFINE_COMPONENT_ACTION(Component, method, Name)
#define HPX_DEFINE_PLAIN_ACTION(function, Name) struct Name: ::hpx::sim::Action<&function> {};
#define HPX_PLAIN_ACTION(function, Name) HPX_DEFINE_PLAIN_ACTION(function, Name)
#define HPX_REGISTER_ACTION_DECLARATION(...)
#define HPX_REGISTER_ACTION(...)
#define HPX_REGISTER_ACTION_ID(...)
#define HPX_REGISTER_COMPONENT(...)
#define HPX_REGISTER_COMPONENT_MODULE(...)
#define HPX_REGISTER_CHANNEL_DECLARATION(...)
#define HPX_REGISTER_CHANNEL(...)
#define HPX_EXPORT
#define HPX_COMPONENT_EXPORT


    // async ---------------------------------------------------------------------------------------------
    namespace sim {

        template<typename Policy, typename F, typename... Args>
        auto launch_async(Policy, F&& function, Args&&... args)
        {
            if constexpr (is_action<F>)
            {
                auto at = []<typename Id, typename... Rest>(Id&& id, Rest&&... rest)
                {
                    if constexpr (is_client<Id>) return std::remove_cvref_t<F>::launch_at(id.get_id(), std::forward<Rest>(rest)...);
                    else return std::remove_cvref_t<F>::launch_at(id, std::forward<Rest>(rest)...);
                };
                return at(std::forward<Args>(args)...);
            }
            else
            {
                using Result = std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
                auto state = std::make_shared<State<Result>>();
                Function run{
                    [state, function = std::decay_t<F>(std::forward<F>(function)), arguments = std::tuple<std::decay_t<Args>...>(std::forward<Args>(args)...)]() mutable
                    { fulfil<Result>(state, [&]() -> Result { return std::apply(std::move(function), std::move(arguments)); }); }};
                if constexpr (std::is_same_v<Policy, launch::sync_policy>) run();
                else scheduler().post(std::move(run));
                return future<Result>{state};
            }
        }

    }  // namespace sim

    template<typename F, typename... Args>
    auto async(F&& function, Args&&... args)
    {
        if constexpr (sim::is_policy<std::remove_cvref_t<F>>) return sim::launch_async(function, std::forward<Args>(args)...);
        else return sim::launch_async(launch::async, std::forward<F>(function), std::forward<Args>(args)...);
    }

    template<typename Action, typename... Args>
        requires sim::is_action<Action>
    auto async(id_type const& id, Args&&... args) { return sim::launch_async(launch::async, Action{}, id, std::forward<Args>(args)...); }

    template<typename F, typename... Args>
    void post(F&& function, Args&&... args) { (void)::hpx::async(std::forward<F>(function), std::forward<Args>(args)...); }

    template<typename F>
    auto annotated_function(F&& function, char const* = nullptr) -> std::decay_t<F> { return std::forward<F>(function); }
    template<typename F>
    auto annotated_function(F&& function, std::string const&) -> std::decay_t<F> { return std::forward<F>(function); }
    struct scoped_annotation { template<typename... T> explicit scoped_annotation(T&&...) {} };

    template<typename F, typename... Args>
    auto bind_front(F&& function, Args&&... args) { return std::bind_front(std::forward<F>(function), std::forward<Args>(args)...); }


    // Waiting for sets of futures -----------------------------------------------------------------------
    namespace sim {

        template<typename T>
        concept Range = requires(T& object) { object.begin(); object.end(); } && !is_future_like<T> && !std::is_same_v<std::remove_cvref_t<T>, std::string>;

        template<typename T>
        concept FutureRange = Range<T> && is_future_like<decltype(*std::declval<T&>().begin())>;

        // The states of all futures in an argument
        template<typename T>
        void collect(T const& object, std::vector<std::shared_ptr<StateBase>>& states)
        {
            if constexpr (is_future_like<T>)
            {
                if (object.state()) states.push_back(object.state());
            }
            else if constexpr (FutureRange<T const>)
            {
                for (auto const& element : object) collect(element, states);
            }
            else if constexpr (serialization::detail::IsTuple<T>::value)
            {
                std::apply([&states](auto const&... elements) { (collect(elements, states), ...); }, object);
            }
        }

        // Call function as soon as all states are ready
        template<typename F>
        void when_ready(std::vector<std::shared_ptr<StateBase>> const& states, F&& function)
        {
            auto count = std::make_shared<std::size_t>(1);
            auto shared = std::make_shared<std::decay_t<F>>(std::forward<F>(function));
            auto arrive = [count, shared]() { if (--*count == 0) (*shared)(); };
            for (auto const& state : states)
            {
                if (!state->ready)
                {
                    ++*count;
                    state->on_ready(arrive);
                }
            }
            arrive();
        }

        template<typename T>
        auto acquire(T& object)
        {
            if constexpr (is_client<T> || !FutureTraits<std::remove_cvref_t<T>>::unique) return std::remove_cvref_t<T>(object);
            else return std::remove_cvref_t<T>(std::move(object));
        }

        template<typename Result>
        auto all_of(Result&& result) -> future<std::decay_t<Result>>
        {
            std::vector<std::shared_ptr<StateBase>> states;
            collect(result, states);
            auto state = std::make_shared<State<std::decay_t<Result>>>();
            when_ready(states, [state, result = std::move(result)]() mutable { state->set_value(std::move(result)); });
            return future<std::decay_t<Result>>{state};
        }

        template<typename R>
        auto to_vector(R& range)
        {
            using Value = std::remove_cvref_t<decltype(*range.begin())>;
            std::vector<Value> result;
            for (auto& element : range) result.push_back(acquire(element));
            return result;
        }

    }  // namespace sim

    template<typename Iterator>
        requires(!sim::is_future_like<Iterator> && !sim::Range<Iterator>)
    auto when_all(Iterator begin, Iterator end)
    {
        std::vector<std::remove_cvref_t<decltype(*begin)>> result;
        for (; begin != end; ++begin) result.push_back(sim::acquire(*begin));
        return sim::all_of(std::move(result));
    }

    template<typename Iterator, typename N>
        requires(!sim::is_future_like<Iterator> && std::is_integral_v<N>)
    auto when_all_n(Iterator begin, N count)
    {
        std::vector<std::remove_cvref_t<decltype(*begin)>> result;
        for (N i = 0; i < count; ++i, ++begin) result.push_back(sim::acquire(*begin));
        return sim::all_of(std::move(result));
    }

    template<typename R>
        requires sim::FutureRange<std::remove_cvref_t<R>>
    auto when_all(R&& range) { return sim::all_of(sim::to_vector(range)); }

    template<typename F, std::size_t n>
    auto when_all(std::array<F, n>& range)
    {
        std::array<F, n> result;
        for (std::size_t i = 0; i < n; ++i) result[i] = sim::acquire(range[i]);
        return sim::all_of(std::move(result));
    }

    template<typename F, std::size_t n>
    auto when_all(std::array<F, n>&& range) { return when_all(range); }

    template<typename... Futures>
        requires(sizeof...(Futures) != 1 && (sim::is_future_like<Futures> && ...))
    auto when_all(Futures&&... futures) { return sim::all_of(std::tuple<std::decay_t<Futures>...>{sim::acquire(futures)...}); }

    // Things that are not futures are ready
    template<typename... Things>
        requires(sizeof...(Things) > 2 && !(sim::is_future_like<Things> && ...))
    auto when_all(Things&&... things)
    {
        return sim::all_of(std::tuple<std::decay_t<Things>...>{std::forward<Things>(things)...});
    }

    template<typename F>
        requires sim::is_future_like<F>
    auto when_all(F&& f) { return sim::all_of(std::tuple<std::decay_t<F>>{sim::acquire(f)}); }

    template<typename Sequence>
    struct when_any_result
    {
        std::size_t index{static_cast<std::size_t>(-1)};
        Sequence futures;
    };

    template<typename R>
        requires sim::FutureRange<std::remove_cvref_t<R>>
    auto when_any(R&& range)
    {
        auto vector = sim::to_vector(range);
        using Result = when_any_result<decltype(vector)>;
        auto state = std::make_shared<sim::State<Result>>();
        if (vector.empty())
        {
            state->set_value(Result{});
            return future<Result>{state};
        }
        std::vector<std::shared_ptr<sim::StateBase>> states;
        sim::collect(vector, states);
        auto shared = std::make_shared<decltype(vector)>(std::move(vector));

        // Let the schedule decide which one is returned in case multiple are ready
        std::vector<std::size_t> ready;
        for (std::size_t i = 0; i < states.size(); ++i) if (states[i]->ready) ready.push_back(i);
        if (!ready.empty())
        {
            state->set_value(Result{ready[sim::scheduler().generator()() % ready.size()], std::move(*shared)});
        }
        else
        {
            for (std::size_t i = 0; i < states.size(); ++i)
                states[i]->on_ready([state, shared, i]() { if (!state->ready) state->set_value(Result{i, std::move(*shared)}); });
        }
        return future<Result>{state};
    }

    template<typename Iterator>
        requires sim::is_future_like<typename std::iterator_traits<Iterator>::value_type>
    auto when_any(Iterator begin, Iterator end)
    {
        using Future = typename std::iterator_traits<Iterator>::value_type;
        std::vector<Future> futures;
        for (; begin != end; ++begin) futures.push_back(sim::acquire(*begin));
        return when_any(std::move(futures));
    }

    namespace sim {
        template<typename T>
        void wait_one(T const& object)
        {
            std::vector<std::shared_ptr<StateBase>> states;
            collect(object, states);
            for (auto const& state : states) state->wait();
        }
    }

    template<typename... Ts>
        requires((sim::is_future_like<Ts> || sim::Range<Ts>) && ...)
    void wait_all(Ts&&... objects) { (sim::wait_one(objects), ...); }

    template<typename Iterator>
        requires(!sim::is_future_like<Iterator> && !sim::Range<Iterator>)
    void wait_all(Iterator begin, Iterator end) { for (; begin != end; ++begin) sim::wait_one(*begin); }

    // Unwrapping ----------------------------------------------------------------------------------------
    namespace sim {

        template<typename T>
        decltype(auto) unwrap_argument(T&& object)
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (is_client<U>) return id_type{object.get_id()};
            else if constexpr (is_plain_future<U>)
            {
                using Result = typename FutureTraits<U>::Result;
                static_assert(!std::is_void_v<Result>);
                return Result(object.get());
            }
            else if constexpr (FutureRange<U>)
            {
                using Value = std::remove_cvref_t<decltype(unwrap_argument(*object.begin()))>;
                std::vector<Value> result;
                for (auto& element : object) result.push_back(unwrap_argument(element));
                return result;
            }
            else return std::forward<T>(object);
        }

        template<typename T>
        auto unwrap_to_tuple(T&& object)
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (is_plain_future<U>)
            {
                if constexpr (std::is_void_v<typename FutureTraits<U>::Result>)
                {
                    object.get();
                    return std::tuple<>{};
                }
                else return std::tuple<typename FutureTraits<U>::Result>{unwrap_argument(std::forward<T>(object))};
            }
            else return std::tuple<std::remove_cvref_t<decltype(unwrap_argument(std::forward<T>(object)))>>{unwrap_argument(std::forward<T>(object))};
        }

        template<typename F>
        struct Unwrapping
        {
            F function;

            template<typename... Args>
            auto operator()(Args&&... args)
            {
                return std::apply(
                    [this](auto&&... values) { return std::invoke(function, std::move(values)...); },
                    std::tuple_cat(unwrap_to_tuple(std::forward<Args>(args))...));
            }
        };

    }  // namespace sim

    template<typename F>
    auto unwrapping(F&& function) -> sim::Unwrapping<std::decay_t<F>> { return {std::forward<F>(function)}; }

    template<typename T>
    auto unwrap(T&& object) { return sim::unwrap_argument(std::forward<T>(object)); }


    // dataflow ------------------------------------------------------------------------------------------
    namespace sim {

        template<typename T>
        auto capture(T&& object) -> std::decay_t<T>
        {
            // Futures that are not shared are taken over
            if constexpr (std::is_lvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>> && !std::is_copy_constructible_v<std::decay_t<T>>)
                return std::decay_t<T>(std::move(object));
            else return std::decay_t<T>(std::forward<T>(object));
        }

        template<typename Policy, typename F, typename... Args>
        auto dataflow(Policy, F&& function, Args&&... args)
        {
            std::tuple<std::decay_t<Args>...> arguments{capture(std::forward<Args>(args))...};
            std::vector<std::shared_ptr<StateBase>> states;
            collect(arguments, states);
            auto locality = scheduler().locality();

            if constexpr (is_action<F>)
            {
                using Result = typename std::remove_cvref_t<F>::result_type;
                auto state = std::make_shared<State<Result>>();
                when_ready(
                    states,
                    [state, arguments = std::move(arguments)]() mutable
                    {
                        auto result = std::apply([](auto&&... values) { return ::hpx::sim::launch_async(Policy{}, std::remove_cvref_t<F>{}, std::move(values)...); }, std::move(arguments));
                        forward_to(state, std::move(result));
                    });
                return future<Result>{state};
            }
            else
            {
                using Result = std::invoke_result_t<std::decay_t<F>&, std::decay_t<Args>...>;
                auto state = std::make_shared<State<Result>>();
                Function run{
                    [state, function = std::decay_t<F>(std::forward<F>(function)), arguments = std::move(arguments)]() mutable
                    { fulfil<Result>(state, [&]() -> Result { return std::apply(function, std::move(arguments)); }); }};
                when_ready(
                    states,
                    [run = std::move(run), locality]() mutable
                    {
                        if constexpr (std::is_same_v<Policy, launch::sync_policy>) run();
                        else scheduler().post(std::move(run), locality);
                    });
                return future<Result>{state};
            }
        }

    }  // namespace sim

    template<typename F, typename... Args>
    auto dataflow(F&& function, Args&&... args)
    {
        if constexpr (sim::is_policy<std::remove_cvref_t<F>>) return sim::dataflow(function, std::forward<Args>(args)...);
        else return sim::dataflow(launch::async, std::forward<F>(function), std::forward<Args>(args)...);
    }


    // split_future --------------------------------------------------------------------------------------
    template<typename... Ts>
    auto split_future(future<std::tuple<Ts...>>&& f) -> std::tuple<future<Ts>...>
    {
        auto outer = f.release();
        std::tuple<sim::StatePtr<Ts>...> states{std::make_shared<sim::State<Ts>>()...};
        outer->on_ready(
            [outer, states]()
            {
                [&]<std::size_t... i>(std::index_sequence<i...>)
                {
                    ((outer->exception ? std::get<i>(states)->set_exception(outer->exception)
                                       : std::get<i>(states)->set_value(std::move(std::get<i>(*outer->value)))),
                     ...);
                }(std::index_sequence_for<Ts...>{});
            });
        return std::apply([](auto const&... s) { return std::tuple<future<Ts>...>{future<Ts>{s}...}; }, states);
    }

    template<typename A, typename B>
    auto split_future(future<std::pair<A, B>>&& f) -> std::pair<future<A>, future<B>>
    {
        auto outer = f.release();
        auto a = std::make_shared<sim::State<A>>();
        auto b = std::make_shared<sim::State<B>>();
        outer->on_ready(
            [outer, a, b]()
            {
                if (outer->exception) { a->set_exception(outer->exception); b->set_exception(outer->exception); }
                else { a->set_value(std::move(outer->value->first)); b->set_value(std::move(outer->value->second)); }
            });
        return {future<A>{a}, future<B>{b}};
    }

    template<typename T>
    auto split_future(future<std::vector<T>>&& f, std::size_t size) -> std::vector<future<T>>
    {
        auto outer = f.release();
        std::vector<sim::StatePtr<T>> states;
        for (std::size_t i = 0; i < size; ++i) states.push_back(std::make_shared<sim::State<T>>());
        std::vector<future<T>> result;
        for (auto const& state : states) result.emplace_back(state);
        outer->on_ready(
            [outer, states]()
            {
                if (outer->exception) for (auto const& state : states) state->set_exception(outer->exception);
                else
                {
                    HPX_ASSERT(outer->value->size() >= states.size());
                    for (std::size_t i = 0; i < states.size(); ++i) states[i]->set_value(std::move((*outer->value)[i]));
                }
            });
        return result;
    }


    // Channels ------------------------------------------------------------------------------------------
    namespace sim {

        template<typename T>
        struct ChannelState
        {
            std::uint32_t locality{};
            std::uint64_t number{next_number()};
            std::deque<T> values;
            std::deque<StatePtr<T>> requests;
            bool closed{false};

            void set(T value)
            {
                HPX_ASSERT(!closed);
                if (!requests.empty())
                {
                    auto request = requests.front();
                    requests.pop_front();
                    request->set_value(std::move(value));
                }
                else values.push_back(std::move(value));
            }

            auto get() -> future<T>
            {
                auto state = std::make_shared<State<T>>();
                if (!values.empty())
                {
                    T value{std::move(values.front())};
                    values.pop_front();
                    state->set_value(std::move(value));
                }
                else if (closed) state->set_exception(std::make_exception_ptr(std::runtime_error("channel is closed")));
                else requests.push_back(state);
                return future<T>{state};
            }

            auto close() -> std::size_t
            {
                if (closed) throw std::runtime_error("attempting to close an already closed channel");
                closed = true;
                auto pending = std::move(requests);
                requests.clear();
                for (auto const& request : pending) request->set_exception(std::make_exception_ptr(std::runtime_error("channel is closed")));
                return pending.size();
            }
        };

        // Names and things that can be found by these
        struct Registry
        {
            std::map<std::pair<std::string, std::size_t>, std::shared_ptr<void>> things;
            std::map<std::pair<std::string, std::size_t>, std::vector<Function>> waiting;

            static auto instance() -> Registry& { static Registry registry; return registry; }
        };

    }  // namespace sim

    namespace lcos {

        // Values that are sent arrive in the order in which they are sent, after some time
        template<typename T>
        class channel
        {
            public:

                using State = sim::ChannelState<T>;

                channel() = default;
                explicit channel(id_type const& locality): _state{std::make_shared<sim::State<std::shared_ptr<State>>>()}
                {
                    auto state = std::make_shared<State>();
                    state->locality = locality.identity().locality;
                    _state->set_value(std::move(state));
                }
                explicit channel(sim::StatePtr<std::shared_ptr<State>> state): _state{std::move(state)} {}

                explicit operator bool() const { return static_cast<bool>(_state); }
                auto valid() const -> bool { return static_cast<bool>(_state); }

                void set(T value) const
                {
                    HPX_ASSERT(_state);
                    auto deliver = [state = _state, value = sim::transfer(value)]() mutable { (*state->value)->set(std::move(value)); };
                    _state->on_ready(std::move(deliver));
                    sim::scheduler().suspension_point();
                }

                void set(launch::apply_policy, T value) const { set(std::move(value)); }
                auto set(launch::async_policy, T value) const -> future<void> { set(std::move(value)); return make_ready_future(); }

                auto get() const -> future<T>
                {
                    HPX_ASSERT(_state);
                    auto result = std::make_shared<sim::State<T>>();
                    _state->on_ready([state = _state, result]() { sim::forward_to(result, (*state->value)->get()); });
                    return future<T>{result};
                }

                auto get(launch::async_policy) const -> future<T> { return get(); }
                auto get(launch::sync_policy) const -> T { return get().get(); }

                auto close(bool = false) const -> std::size_t
                {
                    HPX_ASSERT(_state);
                    _state->wait();
                    return (*_state->value)->close();
                }

                auto impl() const { return _state; }

                //! Values, until the channel is closed
                class iterator
                {
                    public:

                        iterator() = default;
                        explicit iterator(channel const& channel): _channel{&channel} { next(); }

                        auto operator*() const -> T const& { return *_value; }
                        auto operator++() -> iterator& { next(); return *this; }
                        auto operator==(iterator const& other) const -> bool { return _channel == other._channel; }

                    private:

                        void next()
                        {
                            auto f = _channel->get();
                            f.wait();
                            if (f.has_value()) _value = f.get();
                            else _channel = nullptr;
                        }

                        channel const* _channel{};
                        std::optional<T> _value;
                };

                auto begin() const -> iterator { return iterator{*this}; }
                auto end() const -> iterator { return {}; }

                template<typename Archive>
                void serialize(Archive& archive, unsigned int)
                {
                    if constexpr (std::is_same_v<Archive, serialization::output_archive>) archive.slots.emplace_back(_state);
                    else _state = archive.template pop<decltype(_state)>();
                }

            private:

                sim::StatePtr<std::shared_ptr<State>> _state;
        };

    }  // namespace lcos

    namespace distributed { template<typename T> using channel = lcos::channel<T>; }

    template<typename Client>
    auto register_with_basename(std::string const& basename, Client const& client, std::size_t idx) -> future<bool>
    {
        auto& registry = sim::Registry::instance();
        std::pair<std::string, std::size_t> const key{basename, idx};
        bool const added{registry.things.emplace(key, std::make_shared<Client>(client)).second};
        if (added)
        {
            auto waiting = std::move(registry.waiting[key]);
            registry.waiting.erase(key);
            for (auto& function : waiting) function();
        }
        return make_ready_future<bool>(added);
    }

    template<typename Client>
    auto find_from_basename(std::string const& basename, std::size_t idx) -> Client
    {
        auto& registry = sim::Registry::instance();
        std::pair<std::string, std::size_t> const key{basename, idx};
        using State = std::remove_cvref_t<decltype(std::declval<Client>().impl())>;
        auto state = std::make_shared<typename State::element_type>();
        auto connect = [state, key]()
        {
            auto client = std::static_pointer_cast<Client>(sim::Registry::instance().things.at(key));
            auto other = client->impl();
            other->on_ready([state, other]() { state->set_value(*other->value); });
        };
        if (registry.things.contains(key)) connect();
        else registry.waiting[key].push_back(connect);
        return Client{state};
    }

    inline auto unregister_with_basename(std::string const& basename, std::size_t idx) -> future<id_type>
    {
        auto& registry = sim::Registry::instance();
        bool const removed{registry.things.erase({basename, idx}) == 1};
        if (!removed) return make_exceptional_future<id_type>(std::make_exception_ptr(std::runtime_error("not registered")));
        return make_ready_future<id_type>(find_here());
    }


    // Algorithms ----------------------------------------------------------------------------------------
    namespace execution {
        struct parallel_policy {};
        struct sequenced_policy {};
        inline constexpr parallel_policy par{};
        inline constexpr sequenced_policy seq{};
    }

    template<typename Policy, typename... Args>
    auto transform(Policy&&, Args&&... args) { return std::transform(std::forward<Args>(args)...); }

    class sliding_semaphore
    {
        public:

            explicit sliding_semaphore(std::int64_t max_difference, std::int64_t lower_limit = 0): _max_difference{max_difference}, _lower_limit{lower_limit} {}

            void wait(std::int64_t upper_limit)
            {
                while (upper_limit - _max_difference > _lower_limit)
                {
                    sim::scheduler().wait(
                        [this, upper_limit]() { return upper_limit - _max_difference <= _lower_limit; },
                        [this](sim::Function function) { _waiting.push_back(std::move(function)); },
                        "a semaphore");
                }
            }

            void signal(std::int64_t lower_limit)
            {
                _lower_limit = std::max(_lower_limit, lower_limit);
                auto waiting = std::move(_waiting);
                _waiting.clear();
                for (auto& function : waiting) function();
            }

        private:

            std::int64_t _max_difference;
            std::int64_t _lower_limit;
            std::vector<sim::Function> _waiting;
    };

    class runtime;

}  // namespace hpx
