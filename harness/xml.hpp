// Just enough XML to read what the library writes.
#pragma once
#include <cctype>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace hv
{
namespace xml
{
    // elements with attributes, nested, text content
    struct node
    {
        std::string name, text;
        std::map<std::string, std::string> attr;
        std::vector<node> kids;
        node const *find(std::string const &tag, std::string const &key = "", std::string const &value = "") const
        {
            for (auto const &k : kids)
            {
                if (k.name == tag && (key.empty() || (k.attr.count(key) && k.attr.at(key) == value)))
                    return &k;
                if (auto r = k.find(tag, key, value))
                    return r;
            }
            return nullptr;
        }
    };
    struct parser
    {
        std::string s;
        std::size_t i = 0;
        bool ok = true;
        void ws()
        {
            while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i])))
                ++i;
        }
        node element()
        {
            node n;
            ws();
            if (s.compare(i, 2, "<?") == 0) // the declaration
            {
                auto e = s.find("?>", i);
                if (e != std::string::npos)
                    i = e + 2;
                ws();
            }
            if (i >= s.size() || s[i] != '<')
            {
                ok = false;
                return n;
            }
            ++i;
            while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_'))
                n.name += s[i++];
            for (;;)
            {
                ws();
                if (i >= s.size())
                {
                    ok = false;
                    return n;
                }
                if (s[i] == '/')
                {
                    i += 2;
                    return n;
                }
                if (s[i] == '>')
                {
                    ++i;
                    break;
                }
                std::string k, v;
                while (i < s.size() && s[i] != '=' && !std::isspace(static_cast<unsigned char>(s[i])))
                    k += s[i++];
                ws();
                if (i >= s.size() || s[i] != '=')
                {
                    ok = false;
                    return n;
                }
                ++i;
                ws();
                if (i >= s.size() || s[i] != '"')
                {
                    ok = false;
                    return n;
                }
                ++i;
                while (i < s.size() && s[i] != '"')
                    v += s[i++];
                ++i;
                n.attr[k] = v;
            }
            for (;;)
            {
                while (i < s.size() && s[i] != '<')
                    n.text += s[i++];
                if (i + 1 >= s.size())
                {
                    ok = false;
                    return n;
                }
                if (s[i + 1] == '/')
                {
                    i += 2;
                    std::string e;
                    while (i < s.size() && s[i] != '>')
                        e += s[i++];
                    ++i;
                    ok &= e == n.name;
                    return n;
                }
                n.kids.push_back(element());
                if (!ok)
                    return n;
            }
        }
    };
    inline std::vector<double> numbers(std::string const &t)
    {
        std::istringstream f(t);
        std::vector<double> v;
        for (double x; f >> x;)
            v.push_back(x);
        return v;
    }
    inline std::string trim(std::string t)
    {
        while (!t.empty() && std::isspace(static_cast<unsigned char>(t.back())))
            t.pop_back();
        std::size_t k = 0;
        while (k < t.size() && std::isspace(static_cast<unsigned char>(t[k])))
            ++k;
        return t.substr(k);
    }
} // namespace xml
} // namespace hv
