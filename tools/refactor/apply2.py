#!/usr/bin/env python3
"""apply2.py <tree>: the sources of a scratch copy of the repository do the same with other means (other library
calls, other ways to get storage, tables, guarded statics, a lock). Every check has to stay quiet on the result."""
import sys
T = sys.argv[1]
def edit(f, *pairs):
    p = T + "/" + f
    s = open(p).read()
    for old, new in pairs:
        assert old in s, (f, old)
        s = s.replace(old, new)
    open(p, "w").write(s)

edit("include/eni/support/MallocAllocator.h",
 ("#include <cstdlib>", "#include <cstdlib>\n#include <new>\n#include <memory>"),
 ("""    return static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
  }

  void deallocate(pointer pObject, size_type pN = 0)
  { std::free(static_cast<void*>(pObject)); }
""", """    const size_type bytes = sizeof(DataType) * pNumOfElements;
    return static_cast<pointer>(::operator new(bytes, std::nothrow));
  }

  void deallocate(pointer pObject, size_type pN = 0)
  { ::operator delete(pObject, std::nothrow); }
"""),
 ("{ return size_t(-1) / sizeof(DataType); }", "{ return ~static_cast<size_type>(0) / sizeof(DataType); }"),
 ("{ return std::malloc(pNumOfElements); }", "{ return std::calloc(pNumOfElements, 1); }"))
edit("include/eni/adt/bits/Vector.tcc",
 ("""  pointer ptr = (ElementType*)std::calloc(pSize, sizeof(ElementType));
  if (nullptr == ptr && 0 != pSize) //< not enough memory
    throw BadAlloc<NoMemory>();
  return ptr;
""", """  if (0 == pSize)
    return nullptr;
  if (pSize > std::numeric_limits<size_type>::max() / sizeof(ElementType))
    throw BadAlloc<NoMemory>();
  void* ptr = std::malloc(pSize * sizeof(ElementType));
  if (!ptr) //< not enough memory
    throw BadAlloc<NoMemory>();
  std::memset(ptr, 0, pSize * sizeof(ElementType));
  return static_cast<pointer>(ptr);
"""),
 ("""    pointer ptr = (ElementType*)std::realloc(m_Data, sizeof(ElementType) * targetSize);
    if (nullptr == ptr) //< not enough memory
      throw BadAlloc<NoMemory>();
    else {
      m_Data = ptr;
      m_AllocSize = pSize;
    }
""", """    void* ptr = std::malloc(targetSize * sizeof(ElementType));
    if (nullptr == ptr) //< not enough memory
      throw BadAlloc<NoMemory>();
    if (m_DataSize > 0)
      std::memcpy(ptr, static_cast<void*>(m_Data), m_DataSize * sizeof(ElementType));
    std::free(m_Data);
    m_Data = static_cast<pointer>(ptr);
    m_AllocSize = pSize;
"""))
s = open(T + "/include/eni/adt/Vector.h").read()
open(T + "/include/eni/adt/Vector.h", "w").write(s.replace("#include ", "#include <cstring>\n#include <cstdlib>\n#include ", 1))
edit("include/eni/adt/bits/HashBase.tcc",
 ("""  m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
  ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
""", """  m_Buckets = (Bucket*)calloc(m_NumOfBuckets, sizeof(Bucket));
  for (unsigned int i = 0; i < m_NumOfBuckets; ++i)
    m_Buckets[i] = pCopy.m_Buckets[i];
"""))
edit("include/eni/adt/StringHashTable.h",
 ("""    return static_cast<pointer>(
      std::malloc(sizeof(internal::Entry<std::string, ValueType>) + pKey->size() + 1));
""", """    const size_type bytes = sizeof(internal::Entry<std::string, ValueType>) + 1 + pKey->size();
    return static_cast<pointer>(::operator new(bytes));
"""),
 ("  { std::free(static_cast<void*>(pObject)); }", "  { ::operator delete(static_cast<void*>(pObject)); }"))
edit("include/eni/eni.h",
 ("""    eni::EniBase* functor = new CLZ(pArgStr);                   \\
    uint64_t gas = functor->getGas();                           \\
    uint64_t* ptrGas = (uint64_t*)::malloc(sizeof(uint64_t));   \\
    *ptrGas = gas;                                              \\
    delete functor;                                             \\
    return ptrGas;                                              \\
""", """    std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));    \\
    void* ptrGas = ::calloc(1, sizeof(uint64_t));               \\
    const uint64_t gas = functor->getGas();                     \\
    ::memcpy(ptrGas, &gas, sizeof gas);                         \\
    return static_cast<uint64_t*>(ptrGas);                      \\
"""),
 ("""    eni::EniBase* functor = new CLZ(pArgStr);   \\
    char* ret = functor->start();               \\
    delete functor;                             \\
    return ret;                                 \\
""", """    const std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr)); \\
    return functor->start();                    \\
"""),
 ("#include <cstring>", "#include <cstring>\n#include <cstdlib>\n#include <memory>"),
 ("""    std::ostringstream os;
    m_RetVals.print(os);
    return ::strdup(os.str().c_str());
""", """    std::stringstream os(std::ios::out);
    m_RetVals.print(os);
    const std::string text = os.str();
    char* answer = static_cast<char*>(::malloc(text.size() + 1));
    return static_cast<char*>(::memcpy(answer, text.c_str(), text.size() + 1));
"""),
 ("""    m_RetVals.asArray().clear();
    if (!run(m_RetVals.asArray()))
      return nullptr;
""", """    json::Array& answers = m_RetVals.asArray();
    while (!answers.empty())
      answers.pop_back();
    if (!run(answers))
      return nullptr;
"""))
edit("lib/eni.cpp", ("  : m_Parsed(false), m_ParseSuccess(false), m_Args(), m_RetVals() {\n  json::Parser parser(pArgStr);\n  if (!parser) exit(87);\n",
 "  : m_Parsed(), m_ParseSuccess() {\n  json::Parser parser(pArgStr);\n  if (!static_cast<bool>(parser))\n    std::exit(87);\n"),
 ("#include <json/Parser.h>", "#include <json/Parser.h>\n#include <cstdlib>"))
edit("lib/eni_types.cpp", ("  return boost::lexical_cast<std::string, T>(pValue);", "  return pValue.str();"),
 ("template std::string to_string(eni::u64);", "template<>\nstd::string to_string(eni::u64 pValue)\n{\n  char text[24];\n  std::snprintf(text, sizeof text, \"%llu\", static_cast<unsigned long long>(pValue));\n  return text;\n}"),
 ("#include <boost/lexical_cast.hpp>", "#include <cstdio>"))
edit("include/eni/json/Parser.h",
 ("  Parser(const std::string &pStr) {\n    m_It = m_Start = &pStr[0];\n    m_End = &pStr[0] + pStr.length();\n",
  "  Parser(const std::string &pStr) : m_Text(pStr.begin(), pStr.end()) {\n    m_It = m_Start = m_Text.c_str();\n    m_End = m_Start + m_Text.size();\n"),
 ("  const char *m_Start;\n", "  std::string m_Text;\n  const char *m_Start;\n"),
 ("""    std::string str(m_It, m_It+4);
    m_It += 4;
    int code;
    sscanf(str.c_str(), "%X", &code);
    return code;
""", """    static const std::string digits("0123456789abcdefABCDEF");
    unsigned code = 0;
    for (int i = 0; i < 4; ++i) {
      const std::string::size_type d = digits.find(*m_It++);
      code = code * 16 + unsigned(d < 16 ? d : d - 6);
    }
    return static_cast<char>(code & 0xff);
"""),
 ("    std::cerr << pErrMsg;\n", "    std::cerr.write(pErrMsg, ::strlen(pErrMsg));\n"),
 ("      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;\n    }\n    m_It += i;\n", "      if (pPat[i] != m_It[i]) return 0;\n    }\n    m_It += i;\n"))
edit("lib/json/Value.cpp",
 ("""      string::const_iterator c, end = m_Value.string_p->end();
      for (c = m_Value.string_p->begin(); c != end; ++c) {
        if ((*c == '"') || (*c == '\\\\')) {
          os << '\\\\' << *c;
        }
        else if ((0 <= *c) && (*c < 0x20)) {
          char str[11];
          sprintf(str, "%04X", *c);
          os << "\\\\u" << str;
        }
        else {
          os << *c;
        }
      }
""", """      for (const char c : *m_Value.string_p) {
        const unsigned char u = static_cast<unsigned char>(c);
        if (u < 0x20)
          os << "\\\\u00" << (u < 0x10 ? '0' : '1') << "0123456789ABCDEF"[u % 16];
        else if (c == '"' || c == '\\\\')
          os << '\\\\' << c;
        else
          os << c;
      }
"""),
 ('      os << m_Value.int_p->str();\n', '      os << eni::to_string(*m_Value.int_p);\n'),
 ('      os << (m_Value.bool_p? "true": "false");\n', '      os << eni::to_string(eni::Bool(m_Value.bool_p));\n'))
edit("tools/eni_crypto/eni_crypto.cpp",
 ("""  std::ostringstream oss;
  oss.imbue(std::locale::classic());
  std::string::const_iterator ic, end = pStr.end();
  for (ic = pStr.begin(); ic != end; ++ic)
    oss << std::hex << std::setw(2) << std::setfill('0')
        << (int)(unsigned char)(*ic);
  pHex = oss.str();
  return true;
""", """  static std::mutex guard;
  std::lock_guard<std::mutex> lock(guard);
  static const std::string digits("0123456789abcdef");
  std::string text;
  for (unsigned char c : pStr) {
    text += digits[c / 16];
    text += digits[c % 16];
  }
  pHex.swap(text);
  return true;
"""),
 ("""  BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
  if (NULL == bio)
    return NULL;
""", """  BIO* bio = BIO_new(BIO_s_mem());
  if (NULL == bio)
    return NULL;
  BIO_puts(bio, pPemStr.c_str());
"""),
 ("#include <sstream>", "#include <sstream>\n#include <mutex>"),
 ("""  std::string result(reinterpret_cast<const char*>(decrypted),
    ::strnlen(reinterpret_cast<const char*>(decrypted), len));
  pResult.assign(result.c_str(), result.length());
""", """  const void* zero = ::memchr(decrypted, 0, len);
  const char* first = reinterpret_cast<const char*>(decrypted);
  const char* end = zero ? static_cast<const char*>(zero) : first + len;
  pResult.assign(first, end);
"""))
edit("tools/eni_scrypt/eni_scrypt.cpp",
 ("""  std::ostringstream oss;
  oss.imbue(std::locale::classic());
  for (int i = 0; i < 32; i++) {
    oss << std::hex << std::setw(2) << std::setfill('0') << (hash[i] & 0xff);
  }

  pRetVal.emplace_back(oss.str());
""", """  char text[65];
  for (int i = 0; i < 32; i++)
    snprintf(text + 2 * i, 3, "%02x", (unsigned)(unsigned char)hash[i]);
  const std::string answer(text, 64);
  pRetVal.emplace_back(answer);
"""),
 ("""      char c1 = tolower(m_Str[2 * i]), c2 = tolower(m_Str[2 * i + 1]);
      input[i] += c1 < 'a' ? c1 - '0' : c1 - 'a' + 10;
      input[i] <<= 4;
      input[i] += c2 < 'a' ? c2 - '0' : c2 - 'a' + 10;
""", """      input[i] = (char)std::stoi(m_Str.substr(2 * i, 2), nullptr, 16);
"""))
for n, what, f in (("gas", "*gas", '"%llu\\n", (unsigned long long)*gas'), ("run", "str", '"%s\\n", str')):
    edit("tools/eni_cli/eni_%s.cpp" % n,
     ("  std::cout << %s << std::endl;\n" % what, "  const bool good = std::printf(%s) >= 0 && std::fflush(stdout) == 0;\n" % f),
     ("  return std::cout ? ExitSuccess : ExitFailure;", "  return good ? ExitSuccess : ExitFailure;"),
     ("#include <iostream>", "#include <iostream>\n#include <cstdio>"))
edit("tools/eni_cli/optParser.cpp",
 ("    int len = strlen(arg);\n", "    const std::string word(arg);\n"),
 ("(2 == len) && ('-' == arg[1])", "word == \"--\""),
 (".assign(arg, len)", " = word"))
