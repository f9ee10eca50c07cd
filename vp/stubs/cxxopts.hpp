// Stand-in for the parts of cxxopts (https://github.com/jarro2783/cxxopts) LUE's command-line utilities use. The real
// header is not available here. Follows its documentation.
#pragma once
#include <cstddef>
#include <exception>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>


namespace cxxopts {
    namespace exceptions {

        class exception: public std::exception
        {
            public:
                explicit exception(std::string message):
                    _message{std::move(message)}
                {
                }

                char const* what() const noexcept override
                {
                    return _message.c_str();
                }

            private:
                std::string _message;
        };

    }  // namespace exceptions


    class Value
    {
        public:
            enum class Kind { flag, single, list };

            explicit Value(Kind kind):
                kind{kind}
            {
            }

            std::shared_ptr<Value> default_value(std::string const& value)
            {
                auto result = std::make_shared<Value>(*this);
                result->has_default = true;
                result->default_ = value;
                return result;
            }

            Kind kind;
            bool has_default{false};
            std::string default_;
    };


    template<typename T>
    std::shared_ptr<Value> value()
    {
        if constexpr (std::is_same_v<T, bool>)
        {
            return std::make_shared<Value>(Value::Kind::flag);
        }
        else if constexpr (std::is_same_v<T, std::string>)
        {
            return std::make_shared<Value>(Value::Kind::single);
        }
        else
        {
            static_assert(std::is_same_v<T, std::vector<std::string>>);
            return std::make_shared<Value>(Value::Kind::list);
        }
    }


    class OptionValue
    {
        public:
            template<typename T>
            T as() const
            {
                if (values.empty())
                {
                    throw exceptions::exception("No value");
                }

                if constexpr (std::is_same_v<T, bool>)
                {
                    return values.back() == "true";
                }
                else if constexpr (std::is_same_v<T, std::string>)
                {
                    return values.back();
                }
                else
                {
                    return values;
                }
            }

            std::size_t count{0};
            std::vector<std::string> values;
    };


    class ParseResult
    {
        public:
            std::size_t count(std::string const& name) const
            {
                auto const it = options.find(name);
                return it == options.end() ? 0 : it->second.count;
            }

            OptionValue const& operator[](std::string const& name) const
            {
                auto const it = options.find(name);
                if (it == options.end())
                {
                    throw exceptions::exception("Option '" + name + "' not present");
                }
                return it->second;
            }

            std::map<std::string, OptionValue> options;
    };


    class Options;


    class OptionAdder
    {
        public:
            explicit OptionAdder(Options& options):
                _options{options}
            {
            }

            inline OptionAdder& operator()(
                std::string const& names, std::string const& description, std::shared_ptr<Value> const& value = nullptr);

        private:
            Options& _options;
    };


    class Options
    {
        public:
            Options(std::string program, std::string help = ""):
                _program{std::move(program)},
                _help{std::move(help)}
            {
            }

            OptionAdder add_options()
            {
                return OptionAdder{*this};
            }

            void parse_positional(std::initializer_list<std::string> names)
            {
                _positional = names;
            }

            Options& positional_help(std::string text)
            {
                _positional_help = std::move(text);
                return *this;
            }

            Options& show_positional_help()
            {
                return *this;
            }

            Options& allow_unrecognised_options()
            {
                _allow_unrecognised = true;
                return *this;
            }

            std::string help() const
            {
                std::string result = _help + "\nUsage:\n  " + _program + " [OPTION...] " + _positional_help + "\n\n";
                for (auto const& [name, description] : _descriptions)
                {
                    result += "  --" + name + "  " + description + "\n";
                }
                return result;
            }

            ParseResult parse(int argc, char const* const* argv) const
            {
                ParseResult result;
                std::size_t position = 0;
                bool only_positional = false;
                auto store = [&](std::string const& name, std::string const& text)
                {
                    auto& option = result.options[name];
                    ++option.count;
                    option.values.push_back(text);
                };
                auto positional = [&](std::string const& text)
                {
                    while (position < _positional.size())
                    {
                        auto const& name = _positional[position];
                        if (_values.at(name)->kind == Value::Kind::list)
                        {
                            store(name, text);
                            return;
                        }
                        ++position;
                        if (result.count(name) == 0)
                        {
                            store(name, text);
                            return;
                        }
                    }
                };
                for (int i = 1; i < argc; ++i)
                {
                    std::string const argument = argv[i];
                    if (only_positional || argument.size() < 2 || argument[0] != '-')
                    {
                        positional(argument);
                        continue;
                    }
                    if (argument == "--")
                    {
                        only_positional = true;
                        continue;
                    }
                    std::string name;
                    std::string text;
                    bool has_text = false;
                    if (argument[1] == '-')
                    {
                        auto const is = argument.find('=');
                        name = argument.substr(2, is == std::string::npos ? is : is - 2);
                        has_text = is != std::string::npos;
                        text = has_text ? argument.substr(is + 1) : "";
                    }
                    else
                    {
                        auto const it = _short_names.find(argument.substr(1, 1));
                        name = it == _short_names.end() ? "" : it->second;
                        has_text = argument.size() > 2;
                        text = argument.substr(2);
                    }
                    auto const it = _values.find(name);
                    if (it == _values.end())
                    {
                        if (_allow_unrecognised)
                        {
                            continue;
                        }
                        throw exceptions::exception("Option '" + argument + "' does not exist");
                    }
                    if (it->second->kind == Value::Kind::flag)
                    {
                        store(name, has_text ? text : "true");
                        continue;
                    }
                    if (!has_text)
                    {
                        if (++i == argc)
                        {
                            throw exceptions::exception("Option '" + name + "' is missing an argument");
                        }
                        text = argv[i];
                    }
                    store(name, text);
                }
                for (auto const& [name, value] : _values)
                {
                    if (value->has_default && result.count(name) == 0)
                    {
                        result.options[name].values.push_back(value->default_);
                    }
                }
                return result;
            }

        private:
            friend class OptionAdder;
            std::string _program;
            std::string _help;
            std::string _positional_help;
            std::vector<std::string> _positional;
            std::map<std::string, std::shared_ptr<Value>> _values;
            std::map<std::string, std::string> _short_names;
            std::map<std::string, std::string> _descriptions;
            bool _allow_unrecognised{false};
    };


    OptionAdder& OptionAdder::operator()(
        std::string const& names, std::string const& description, std::shared_ptr<Value> const& value)
    {
        auto const comma = names.find(',');
        std::string const name = comma == std::string::npos ? names : names.substr(comma + 1);
        if (comma != std::string::npos)
        {
            _options._short_names[names.substr(0, comma)] = name;
        }
        _options._values[name] = value ? value : std::make_shared<Value>(Value::Kind::flag);
        _options._descriptions[name] = description;
        return *this;
    }

}  // namespace cxxopts
