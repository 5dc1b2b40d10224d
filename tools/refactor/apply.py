#!/usr/bin/env python3
"""apply.py <tree>: rewrites the sources of a scratch copy of the repository without changing what they do
(helpers extracted, loops rewritten, statements reordered). Every check has to stay quiet on the result."""
import re, sys
T = sys.argv[1]
def edit(f, *pairs):
    p = T + "/" + f
    s = open(p).read()
    for old, new in pairs:
        assert old in s, (f, old)
        s = s.replace(old, new)
    open(p, "w").write(s)

edit("include/eni/adt/bits/Vector.tcc",
 ("""  m_Data = allocate(m_DataSize);
  std::fill_n(m_Data, m_DataSize, pValue);
""", """  m_Data = allocate(m_DataSize);
  for (size_type i = 0; i < m_DataSize; ++i)
    m_Data[i] = pValue;
"""),
 ("""  : m_DataSize(pVector.size()), m_AllocSize(pVector.size()) {
  m_Data = allocate(m_DataSize);
  std::copy(pVector.begin(), pVector.end(), m_Data);
""", """  : m_DataSize(pVector.size()), m_AllocSize(pVector.size()) {
  m_Data = allocate(m_DataSize);
  size_type i = 0;
  for (const_reference e : pVector)
    m_Data[i++] = e;
"""),
 ("""  assign(pOther.begin(), pOther.end());
  return *this;""", """  if (this != &pOther)
    assign(pOther.begin(), pOther.end());
  return *this;"""),
 ("""    size_type targetSize = capacity();
    while (targetSize < pSize && targetSize < max_size()) {
      targetSize = (targetSize > 0) ? targetSize * 2 : 1;
    }
    if (targetSize > max_size())
      targetSize = max_size();
    pointer ptr = (ElementType*)std::realloc(m_Data, sizeof(ElementType) * targetSize);
    if (nullptr == ptr) //< not enough memory
      throw BadAlloc<NoMemory>();
    else {
      m_Data = ptr;
      m_AllocSize = pSize;
    }
""", """    const size_type limit = max_size();
    size_type targetSize = std::max<size_type>(capacity(), 1);
    for (; targetSize < pSize && targetSize < limit; targetSize += targetSize)
      ;
    targetSize = std::min(targetSize, limit);
    void* ptr = std::realloc(m_Data, targetSize * sizeof(ElementType));
    if (!ptr)
      throw BadAlloc<NoMemory>();
    m_AllocSize = pSize;
    m_Data = static_cast<pointer>(ptr);
"""),
 ("""  reserve(size() + 1);
  m_Data[m_DataSize++] = value;
""", """  const size_type last = m_DataSize;
  reserve(last + 1);
  m_Data[last] = value;
  m_DataSize = last + 1;
"""),
 ("""  return m_Data[--m_DataSize];""", """  m_DataSize -= 1;
  return m_Data[m_DataSize];"""),
 ("""  pointer ptr = m_Data + pIndex;
  pointer end = m_Data + size();
  std::copy_backward(ptr, end - pSize, end);
  std::fill_n(ptr, pSize, value);
""", """  for (size_type i = size(); i > pIndex + pSize; --i)
    m_Data[i - 1] = m_Data[i - 1 - pSize];
  std::fill(m_Data + pIndex, m_Data + pIndex + pSize, value);
"""),
 ("""  std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
  resize(size() - eraseSize);
""", """  for (size_type i = pLast; i < size(); ++i)
    m_Data[i - eraseSize] = m_Data[i];
  m_DataSize -= eraseSize;
"""),
 ("""  if (nullptr != m_Data) {
    std::free(m_Data);
    m_Data = nullptr;
  }
  m_DataSize = 0;
  m_AllocSize = 0;
""", """  pointer old = m_Data;
  m_DataSize = m_AllocSize = 0;
  m_Data = nullptr;
  std::free(old);
"""),
 ("""  std::swap(m_Data, pOther.m_Data);
  std::swap(m_DataSize, pOther.m_DataSize);
  std::swap(m_AllocSize, pOther.m_AllocSize);
""", """  using std::swap;
  swap(m_AllocSize, pOther.m_AllocSize);
  swap(m_DataSize, pOther.m_DataSize);
  swap(m_Data, pOther.m_Data);
"""),
)
edit("include/eni/adt/HashBase.h", ("""  /// isInit - return true if""", """  /// isLive - return true if the bucket holds an entry.
  static bool isLive(const Bucket& pBucket) {
    return !(EmptyBucket() == pBucket.entry || Tombstone() == pBucket.entry);
  }

  /// next - the bucket after pIndex, in a circle.
  unsigned int next(unsigned int pIndex) const {
    return (pIndex + 1 == m_NumOfBuckets) ? 0 : pIndex + 1;
  }

  /// isInit - return true if"""))
edit("include/eni/adt/bits/HashBase.tcc",
 ("""  unsigned int idx = 0;
  do {
    if (pNumOfBuckets < bucket_size[idx]) {
      return bucket_size[idx];
    }
    ++idx;
  } while(idx < buckets_count);
""", """  for (unsigned int idx = 0; idx != buckets_count; ++idx) {
    if (bucket_size[idx] > pNumOfBuckets)
      return bucket_size[idx];
  }
"""),
 ("""    index += probe;
    if (index == numOfBuckets())
      index = 0;
  }
}

template<typename K, typename V, typename H, template<class, class> class E>
int TableImpl""", """    index = next(index);
  }
}

template<typename K, typename V, typename H, template<class, class> class E>
int TableImpl"""),
 ("""  // linear probing
  while (true) {
    Bucket &bucket = m_Buckets[index];

    if (EmptyBucket() == bucket.entry)
      return -1;

    if (Tombstone() == bucket.entry) {
      // Ignore tombstones.
    }
    else if (full_hash == bucket.hash) {
      // get string, compare, if match, return index
      if (bucket.entry->key() == pKey)
        return index;
    }
    index += probe;
    if (index == numOfBuckets())
      index = 0;
  }
""", """  // linear probing
  for (; EmptyBucket() != m_Buckets[index].entry; index = next(index)) {
    const Bucket& bucket = m_Buckets[index];
    if (isLive(bucket) && full_hash == bucket.hash && bucket.entry->key() == pKey)
      return index;
  }
  return -1;
"""),
 ("""  if ((m_NumOfEntries<<2) > m_NumOfBuckets*3)
    new_size = compute_bucket_size(m_NumOfBuckets);
  else if (((m_NumOfBuckets-(m_NumOfEntries+m_NumOfTombstones))<<3) < m_NumOfBuckets)
    new_size = m_NumOfBuckets;
  else
    return;

  doRehash(new_size);
""", """  const bool crowded = m_NumOfEntries * 4 > m_NumOfBuckets * 3;
  const unsigned int unused = m_NumOfBuckets - m_NumOfEntries - m_NumOfTombstones;
  if (crowded || unused * 8 < m_NumOfBuckets) {
    new_size = crowded ? compute_bucket_size(m_NumOfBuckets) : m_NumOfBuckets;
    doRehash(new_size);
  }
"""),
 ("""  Bucket* e = m_Buckets + m_NumOfBuckets;
  for (Bucket* ib = m_Buckets; ib != e; ++ib) {
    if (ib->entry != EmptyBucket() && ib->entry != Tombstone()) {
      // Fast case, bucket available.
      unsigned full_hash = ib->hash;
      unsigned new_bucket = full_hash % pNewSize;
      if (EmptyBucket() == new_table[new_bucket].entry) {
        new_table[new_bucket].entry = ib->entry;
        new_table[new_bucket].hash = full_hash;
        continue;
      }

      // Otherwise probe for a spot.
      const unsigned int probe = 1;
      do {
        new_bucket += probe;
        if (new_bucket == pNewSize)
          new_bucket = 0;
      } while (new_table[new_bucket].entry != EmptyBucket());

      // Finally found a slot.  Fill it in.
      new_table[new_bucket].entry = ib->entry;
      new_table[new_bucket].hash = full_hash;
    }
  }

  ::free(m_Buckets);

  m_Buckets = new_table;
  m_NumOfBuckets = pNewSize;
  m_NumOfTombstones = 0;
""", """  for (unsigned int i = 0; i < m_NumOfBuckets; ++i) {
    if (!isLive(m_Buckets[i]))
      continue;
    unsigned place = m_Buckets[i].hash % pNewSize;
    while (EmptyBucket() != new_table[place].entry)
      place = (place + 1) % pNewSize;
    new_table[place] = m_Buckets[i];
  }

  std::swap(m_Buckets, new_table);
  ::free(new_table);
  m_NumOfTombstones = 0;
  m_NumOfBuckets = pNewSize;
"""),
 ("""  const unsigned int probe = 1;
  // linear probing
""", """  // linear probing
"""),
)
edit("include/eni/adt/bits/HashTable.tcc",
 ("""  for (unsigned int i=0; i < numOfBuckets(); ++i) {
    if (EmptyBucket() != super::m_Buckets[i].entry &&
        Tombstone() != super::m_Buckets[i].entry ) {
      // copy entry
      const key_type& key = pCopy.super::m_Buckets[i].entry->key();
      super::m_Buckets[i].entry = m_EntryAlloc.allocate(1, &key);
      entry_type* entry = new (super::m_Buckets[i].entry) entry_type(key);
      entry->setValue(pCopy.m_Buckets[i].entry->value());
    }
  }
""", """  for (unsigned int i = numOfBuckets(); i-- > 0; ) {
    if (!super::isLive(pCopy.m_Buckets[i]))
      continue;
    const entry_type& from = *pCopy.m_Buckets[i].entry;
    const key_type& key = from.key();
    entry_type* entry = m_EntryAlloc.allocate(1, &key);
    ::new (entry) entry_type(key);
    entry->setValue(from.value());
    super::m_Buckets[i].entry = entry;
  }
"""),
 ("""    if (EmptyBucket() != super::m_Buckets[i].entry ) {
      if (Tombstone() != super::m_Buckets[i].entry ) {
        ((entry_type*)super::m_Buckets[i].entry)->~entry_type();
        m_EntryAlloc.deallocate(super::m_Buckets[i].entry);
      }
      super::m_Buckets[i].entry = EmptyBucket();
    }
""", """    bucket_type& bucket = super::m_Buckets[i];
    if (super::isLive(bucket)) {
      bucket.entry->~entry_type();
      m_EntryAlloc.deallocate(bucket.entry);
    }
    bucket.entry = EmptyBucket();
"""),
 ("""  // find a tombstone
  if (Tombstone() == entry)
    --super::m_NumOfTombstones;

  // construct an entry
  entry = m_EntryAlloc.allocate(1, &pKey);

  // constructor with key type is necessary.
  new (entry) entry_type(pKey);

  // set up the bucket
  bucket.entry = entry;

  ++super::m_NumOfEntries;
""", """  const bool reused = (Tombstone() == entry);
  entry = new (m_EntryAlloc.allocate(1, &pKey)) entry_type(pKey);
  bucket.entry = entry;
  ++super::m_NumOfEntries;
  super::m_NumOfTombstones -= reused;
"""),
 ("""  int index;
  if (-1 == (index = super::findKey(pKey)))
    return false;

  bucket_type& bucket = super::m_Buckets[index];
  ((entry_type*)bucket.entry)->~entry_type();
  m_EntryAlloc.deallocate(bucket.entry);
  bucket.entry = Tombstone();

  --super::m_NumOfEntries;
  ++super::m_NumOfTombstones;
""", """  const int index = super::findKey(pKey);
  if (index < 0)
    return false;

  entry_type* gone = super::m_Buckets[index].entry;
  super::m_Buckets[index].entry = Tombstone();
  ++super::m_NumOfTombstones;
  --super::m_NumOfEntries;
  gone->~entry_type();
  m_EntryAlloc.deallocate(gone);
"""),
 ("""  unsigned int index = 0;
  while (Tombstone() == super::m_Buckets[index].entry ||
         EmptyBucket() == super::m_Buckets[index].entry) {
    ++index;
  }
""", """  unsigned int index = 0;
  for (; !super::isLive(super::m_Buckets[index]); ++index)
    ;
"""),
)
edit("include/eni/adt/bits/HashIterator.tcc",
 ("""  do {
    ++m_Index;
    if (m_pHashTable->numOfBuckets() == m_Index) { // to the end
      reset();
      return;
    }
  } while(hash_table::EmptyBucket() == m_pHashTable->bucket(m_Index).entry ||
          hash_table::Tombstone() == m_pHashTable->bucket(m_Index).entry);
""", """  while (++m_Index < m_pHashTable->numOfBuckets()) {
    const bucket_type& bucket = m_pHashTable->bucket(m_Index);
    if (hash_table::EmptyBucket() != bucket.entry &&
        hash_table::Tombstone() != bucket.entry)
      return;
  }
  reset();
"""),
 ("""  if (m_pHashTable == pCopy.m_pHashTable) {
    if (0 == m_pHashTable)
      return true;
    return ((m_HashValue == pCopy.m_HashValue) &&
            (m_EndIndex == pCopy.m_EndIndex) &&
            (m_Index == pCopy.m_Index));
  }
  return false;
""", """  if (m_pHashTable != pCopy.m_pHashTable)
    return false;
  return !m_pHashTable || (m_Index == pCopy.m_Index &&
    m_EndIndex == pCopy.m_EndIndex && m_HashValue == pCopy.m_HashValue);
"""),
)
edit("include/eni/adt/StringMap.h",
 ("""    bool exist = false;
    entry_type* entry = super::insert(pKey, exist);
    return entry->value();
""", """    bool exist;
    return super::insert(pKey, exist)->value();
"""),
 ("""    iterator it = super::find(pKey);
    if (it == this->end())
      throw OutOfRange<InvalidStringMapKey>();
    return it->value();
  }

  const""", """    return const_cast<value_type&>(static_cast<const StringMap&>(*this).at(pKey));
  }

  const"""),
)
edit("include/eni/adt/StringHashTable.h", ("""    std::memcpy(m_Key, pKey.data(), pKey.size());
    m_Key[pKey.size()] = '\\0';
""", """    char* end = std::copy(pKey.begin(), pKey.end(), m_Key);
    *end = 0;
"""))
edit("include/eni/adt/StringHasher.h",
 ("""    for(uint32_t i = 0; i < pKey.size(); ++i)
      hash_val = pKey[i] + (hash_val << 6) + (hash_val << 16) - hash_val;
""", """    for (char c : pKey)
      hash_val = c + (hash_val << 6) + (hash_val << 16) - hash_val;
"""),
 ("""    uint32_t res = (in_c ^ r_c) & r_c;
    if (0 != res)
      return false;

    uint32_t in_dot = pInString >> 28;
    uint32_t r_dot  = pRule >> 28;
    if (r_dot > in_dot)
      return false;

    return true;
""", """    return (r_c & ~in_c) == 0 && (pRule >> 28) <= (pInString >> 28);
"""))
edit("include/eni/json/Parser.h",
 ("""    if (parse_object()) return;
    if (parse_array()) return;
    if (parse_string(false)) return;
    if (parse_boolean()) return;
    if (parse_number()) return;
    parse_error("expected value");
""", """    if (!(parse_boolean() || parse_string(false) || parse_array() ||
          parse_object() || parse_number()))
      parse_error("expected value");
"""),
 ("""    if (have('t')) {
      expect("rue", "expected 'true'");
      m_CBacks.on_boolean(true);
      return true;
    }
    if (have('f')) {
      expect("alse", "expected 'false'");
      m_CBacks.on_boolean(false);
      return true;
    }
    return false;
""", """    const bool yes = have('t');
    if (!yes && !have('f'))
      return false;
    if (yes)
      expect("rue", "expected 'true'");
    else
      expect("alse", "expected 'false'");
    m_CBacks.on_boolean(yes);
    return true;
"""),
 ("""    while (1) {
      if (have('\\"')) break;
      if (m_It == m_End) parse_error("unterminated string");
      if (have('\\\\')) {
        str.push_back(parse_escape());
      } else {
        // TODO: UTF-8 decoding
        // Current: ASCII (temp)
        // parse_utf8();
        str.push_back(*m_It);
        m_It++;
      }
    }
""", """    while (!have('\\"')) {
      if (m_It == m_End) parse_error("unterminated string");
      str.push_back(have('\\\\') ? parse_escape() : *m_It++);
    }
"""),
 ("""    if (have('"')){
      return '"';
    } else if (have('\\\\')) {
      return '\\\\';
    } else if (have('/')) {
      return '/';
    } else if (have('b')) {
      return '\\b'; // backspace
    } else if (have('f')) {
      return '\\f'; // formfeed
    } else if (have('n')) {
      return '\\n'; // line feed
    } else if (have('r')) {
      return '\\r'; // carriage return
    } else if (have('t')) {
      return '\\t'; // horizontal tab
    } else if (have('u')) {
      return parse_codepoint();
    } else {
      parse_error("invalid escape sequence");
    }
  }
""", """    static const char from[] = "\\"\\\\/bfnrt", to[] = "\\"\\\\/\\b\\f\\n\\r\\t";
    for (int i = 0; from[i]; ++i)
      if (have(from[i]))
        return to[i];
    if (!have('u'))
      parse_error("invalid escape sequence");
    return parse_codepoint();
  }
"""),
 ("""    std::string str(m_It, m_It+4);
    m_It += 4;
    int code;
    sscanf(str.c_str(), "%X", &code);
    return code;
""", """    int code = 0;
    for (int i = 0; i < 4; ++i, ++m_It) {
      const char c = *m_It;
      code = code * 16 + (c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
    }
    return static_cast<char>(code);
"""),
 ("""    while (have(is_digit, pStr));
""", """    for (; is_digit(*m_It); ++m_It)
      pStr.push_back(*m_It);
"""),
 ("""    while (have(' ') || have('\\t') || have('\\n') || have('\\r'));
""", """    while (*m_It == ' ' || *m_It == '\\t' || *m_It == '\\n' || *m_It == '\\r')
      ++m_It;
"""),
)
edit("include/eni/json/Callbacks.h",
 ("""    Value &par = m_Stack.back().first;
    string key = m_Stack.back().second;
    if (par.isObject()) {
      par.asObject()[key] = pV;
    }
    else if (par.isArray()) {
      par.asArray().push_back(pV);
    }
""", """    pair<Value, string>& top = m_Stack.back();
    if (top.first.isArray())
      top.first.asArray().push_back(pV);
    else if (top.first.isObject())
      top.first.asObject()[top.second] = pV;
"""),
 ("""  void end_array() {
    Value v = m_Stack.back().first;
    m_Stack.pop_back();
    set_parent(v);
  }
""", """  void end_array() {
    end_object();
  }
"""),
)
edit("lib/json/Value.cpp",
 ("""        if ((*c == '"') || (*c == '\\\\')) {
          os << '\\\\' << *c;
        }
        else if ((0 <= *c) && (*c < 0x20)) {
          char str[11];
          sprintf(str, "%04X", *c);
          os << "\\\\u" << str;
        }
        else {
          os << *c;
        }
""", """        const unsigned char u = *c;
        if (u < 0x20) {
          static const char digits[] = "0123456789abcdef";
          os << "\\\\u00" << digits[u >> 4] << digits[u & 15];
          continue;
        }
        if (u == '"' || u == '\\\\')
          os << '\\\\';
        os << *c;
"""),
 ("""static Value g_NullValue;
""", """static Value g_NullValue;

template<class T>
static T* clone(const T* pSource)
{
  return new T(*pSource);
}
"""),
 ("new eni::s256(*pCopy.m_Value.int_p)", "clone(pCopy.m_Value.int_p)"),
 ("new string(*pCopy.m_Value.string_p)", "clone(pCopy.m_Value.string_p)"),
 ("new Object(*pCopy.m_Value.object_p)", "clone(pCopy.m_Value.object_p)"),
 ("new Array(*pCopy.m_Value.array_p)", "clone(pCopy.m_Value.array_p)"),
)
edit("lib/json/Array.cpp", ("""  int i=0;
  for(const Value &e: *this){
    if(i++) os << ',';
    e.print(os);
  }
""", """  for (size_t i = 0; i < size(); ++i) {
    if (i > 0) os << ',';
    (*this)[i].print(os);
  }
"""))
edit("lib/json/Object.cpp", ("""  bool first = true;
""", """  const char* separator = "";
"""), ("""    if (!first)
      pOs << ',';
    else
      first = false;
    Value(it->key()).print(pOs);
    pOs << ':';
""", """    pOs << separator;
    const Value key(it->key());
    key.print(pOs);
    pOs << ':';
    separator = ",";
"""))
edit("lib/json/Notation.cpp", ("""  : m_Type(UNDEF) {
  m_Type = pOther.m_Type;
  pOther.m_Type = UNDEF;
""", """  : m_Type(pOther.m_Type) {
  pOther.m_Type = UNDEF;
"""))
edit("include/eni/eni.h",
 ("""    uint64_t gas = functor->getGas();                           \\
    uint64_t* ptrGas = (uint64_t*)::malloc(sizeof(uint64_t));   \\
    *ptrGas = gas;                                              \\
    delete functor;                                             \\
    return ptrGas;                                              \\
""", """    uint64_t* ptrGas = (uint64_t*)::calloc(1, sizeof(uint64_t));\\
    *ptrGas = functor->getGas();                                \\
    delete functor;                                             \\
    return ptrGas;                                              \\
"""),
 ("""    eni::EniBase* functor = new CLZ(pArgStr);   \\
    char* ret = functor->start();               \\
    delete functor;                             \\
    return ret;                                 \\
""", """    CLZ functor(pArgStr);                       \\
    eni::EniBase& base = functor;               \\
    return base.start();                        \\
"""),
 ("""    if (!check(m_Args))
      return 1500;
    return gas();
""", """    return check(m_Args) ? gas() : 1500;
"""),
 ("""    m_RetVals.asArray().clear();
    if (!run(m_RetVals.asArray()))
      return nullptr;

    std::ostringstream os;
    m_RetVals.print(os);
    return ::strdup(os.str().c_str());
""", """    json::Array& results = m_RetVals.asArray();
    results.clear();
    const bool done = run(results);
    return done ? text(m_RetVals) : nullptr;
"""),
 ("""private:
  bool check(""", """private:
  static char* text(const json::Value& pValue) {
    std::ostringstream os;
    pValue.print(os);
    const std::string str = os.str();
    char* copy = static_cast<char*>(::malloc(str.size() + 1));
    ::memcpy(copy, str.c_str(), str.size() + 1);
    return copy;
  }

  bool check("""),
 ("""    if (!m_Parsed) {
      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
      m_Parsed = true;
    }
    return m_ParseSuccess;
""", """    if (m_Parsed)
      return m_ParseSuccess;
    if (pArgs.isArray())
      m_ParseSuccess = parse(pArgs.toArray());
    m_Parsed = true;
    return m_ParseSuccess;
"""))
edit("tools/eni_crypto/eni_crypto.cpp",
 ("""  std::ostringstream oss;
  oss.imbue(std::locale::classic());
  std::string::const_iterator ic, end = pStr.end();
  for (ic = pStr.begin(); ic != end; ++ic)
    oss << std::hex << std::setw(2) << std::setfill('0')
        << (int)(unsigned char)(*ic);
  pHex = oss.str();
""", """  static const char digits[] = "0123456789abcdef";
  std::string hex;
  for (unsigned char c : pStr) {
    hex += digits[c / 16];
    hex += digits[c % 16];
  }
  pHex = hex;
"""),
 ("""  if (0 != (pHex.length() % 2))
    return false;
  pStr.clear();
  std::string::const_iterator ic, end = pHex.end();
  for (ic = pHex.begin(); ic != end; ic += 2) {
    int digit = hex2digit(*ic, *(ic + 1));
    if (digit < 0)
      return false;
    pStr.push_back((char)digit);
  }
  return true;
""", """  if (pHex.length() & 1)
    return false;
  pStr.clear();
  pStr.reserve(pHex.length() / 2);
  for (size_t i = 0; i < pHex.length(); i += 2) {
    const int byte = hex2digit(pHex[i], pHex[i + 1]);
    if (byte < 0)
      return false;
    pStr += static_cast<char>(byte);
  }
  return true;
"""),
 ("""  std::string message(pMsg);
  if (message.length() < size)
      message.append(size - message.length(), '\\0');
""", """  std::string message = pMsg;
  message.resize(size, '\\0');
"""),
 ("""  std::string result(reinterpret_cast<const char*>(decrypted),
    ::strnlen(reinterpret_cast<const char*>(decrypted), len));
  pResult.assign(result.c_str(), result.length());
  return true;
""", """  const char* text = reinterpret_cast<const char*>(decrypted);
  pResult.assign(text, ::strnlen(text, len));
  return true;
"""),
 ("""bool RSAEncrypt::parse(const json::Array& pArgs)
{
  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
    return false;
""", """static bool two_strings(const json::Array& pArgs)
{
  return pArgs.size() >= 2 && pArgs[0].isString() && pArgs[1].isString();
}

bool RSAEncrypt::parse(const json::Array& pArgs)
{
  if (!two_strings(pArgs))
    return false;
"""),
 ("""  int size = ::RSA_size(m_Key);
  return size * 10;
""", """  return 10 * ::RSA_size(m_Key);
"""),
 ("""  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
    return false;
  m_Key = rsa::create_privkey(pArgs[0].toString());
  if (nullptr == m_Key)
    return false;
  if (!hex2str(pArgs[1].toString(), m_Msg))
    return false;
  return true;
""", """  if (!two_strings(pArgs))
    return false;
  m_Key = rsa::create_privkey(pArgs[0].toString());
  return nullptr != m_Key && hex2str(pArgs[1].toString(), m_Msg);
"""),
)
edit("tools/eni_scrypt/eni_scrypt.cpp",
 ("""  if (m_Str.length() > 160)
      return false;
  if (m_Str.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
      return false;

  return true;
""", """  return m_Str.length() <= 160 &&
    std::all_of(m_Str.begin(), m_Str.end(), [](unsigned char c) {
      return ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F');
    });
"""),
 ("#include <cctype>\n", "#include <algorithm>\n#include <cctype>\n"),
 ("  return (m_Str.length() + 1) / 2 * 10;", "  const size_t bytes = m_Str.length() / 2 + m_Str.length() % 2;\n  return 10 * bytes;"),
 ("""  char input[80];
  memset(input, 0, 80);
""", """  char input[80] = {0};
"""),
 ("""  if (m_Str.length() % 2 != 0) {
      m_Str.insert(0, 1, '0');
  }
  int len = m_Str.length() / 2;
  for (int i = 0; i < len; i++) {
      char c1 = tolower(m_Str[2 * i]), c2 = tolower(m_Str[2 * i + 1]);
      input[i] += c1 < 'a' ? c1 - '0' : c1 - 'a' + 10;
      input[i] <<= 4;
      input[i] += c2 < 'a' ? c2 - '0' : c2 - 'a' + 10;
  }
""", """  const size_t odd = m_Str.length() % 2;
  for (size_t i = 0; i < m_Str.length(); i++) {
      const char c = m_Str[i];
      const int digit = c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10;
      char& byte = input[(i + odd) / 2];
      byte = static_cast<char>((byte << 4) | digit);
  }
"""),
)
edit("tools/eni_scrypt/scrypt.cpp",
 ("""	const uint8_t *p = (uint8_t const *)pp;
	return ((uint32_t)(p[3]) + ((uint32_t)(p[2]) << 8) +
	    ((uint32_t)(p[1]) << 16) + ((uint32_t)(p[0]) << 24));
""", """	const uint8_t *p = (uint8_t const *)pp;
	uint32_t x = 0;
	for (int i = 0; i < 4; i++)
		x = (x << 8) | p[i];
	return x;
"""),
 ("""	for (i = 0; i * 32 < dkLen; i++) {
		/* Generate INT(i + 1). */
""", """	const size_t blocks = dkLen / 32 + (dkLen % 32 != 0);
	for (i = 0; i < blocks; i++) {
		/* Generate INT(i + 1). */
"""),
 ("""	for (i = 0; i < 1024; i++) {
		memcpy(&V[i * 32], X, 128);
		xor_salsa8(&X[0], &X[16]);
		xor_salsa8(&X[16], &X[0]);
	}
""", """	for (uint32_t *row = V; row != V + 1024 * 32; row += 32) {
		for (k = 0; k < 32; k++)
			row[k] = X[k];
		xor_salsa8(&X[0], &X[16]);
		xor_salsa8(&X[16], &X[0]);
	}
"""),
)
edit("tools/eni_cli/optParser.cpp",
 ("""    int len = strlen(arg);
    if (('-' == arg[0]) && !endOfOptions) { //< options
      if ((2 == len) && ('-' == arg[1])) { //< double-dash
        endOfOptions = true;
        continue;
      }
      // TODO: add and parse options here
    }
    else { //< positional parameters
      switch (++posCount) {
        case 1:
          m_LibPath.assign(arg, len);
          break;
        case 2:
          m_OpName.assign(arg, len);
          break;
        case 3:
          m_Params.assign(arg, len);
          break;
        default:
          // TODO: too many arguments
          return false;
      }
    }
  }
  if (posCount < 3) {
    // TODO: too less arguments
    return false;
  }
  return true;
""", """    if (!endOfOptions && '-' == arg[0]) { //< options
      endOfOptions = (0 == strcmp(arg, "--"));
      continue;
    }
    std::string* const place[] = {&m_LibPath, &m_OpName, &m_Params};
    if (posCount == 3)
      return false;
    *place[posCount++] = arg;
  }
  return posCount == 3;
"""))
for f, sym, exit1 in (("tools/eni_cli/eni_run.cpp", "run", "1"), ("tools/eni_cli/eni_gas.cpp", "gas", "ExitParseError")):
    edit(f, ("""#define NULL_RETURN(VAR,ERR) \\
  if (NULL == (VAR)) return ERR
""", ""), ("  NULL_RETURN(handle, ExitLoadError);", "  if (!handle)\n    return ExitLoadError;"),
    ("  eni_op_t* eni_%s = (eni_op_t*)::dlsym(handle, (opt.op() + \"_%s\").c_str());\n  NULL_RETURN(eni_%s, ExitSymError);" % (sym, sym, sym),
     "  const std::string name = opt.op() + \"_%s\";\n  eni_op_t* eni_%s = reinterpret_cast<eni_op_t*>(::dlsym(handle, name.c_str()));\n  if (!eni_%s)\n    return ExitSymError;" % (sym, sym, sym)),
    ("  NULL_RETURN(%s, ExitRunError);" % ("str" if sym == "run" else "gas"), "  if (!%s)\n    return ExitRunError;" % ("str" if sym == "run" else "gas")))
edit("lib/eni.cpp", ("""  m_Args = parser.getRoot();
  m_RetVals.delegate(*(new json::Array()));
""", """  m_RetVals.delegate(*(new json::Array()));
  m_Args = parser.getRoot();
"""))
edit("include/eni/support/MallocAllocator.h",
 ("""    if (pNumOfElements > max_size())
      return NULL;
    return static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
""", """    void* storage = NULL;
    if (pNumOfElements <= max_size())
      storage = std::malloc(sizeof(DataType) * pNumOfElements);
    return static_cast<pointer>(storage);
"""))
print("rewritten")
