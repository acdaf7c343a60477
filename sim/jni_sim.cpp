// A JVM made of a JNI function table, for the Android binding (C12).
#include <jni.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <set>
#include "tokenizers/tokenizer.h"
#include <unicode/unistr.h>
#include "world.h"

extern "C" {
JNIEXPORT jlong JNICALL Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv*, jobject, jstring);
JNIEXPORT jintArray JNICALL Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv*, jobject, jlong, jstring, jboolean);
JNIEXPORT jint JNICALL JNI_OnLoad(JavaVM*, void*) __attribute__((weak));
JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(JNIEnv*, jobject, jlong, jintArray, jboolean);
}

namespace {
enum ObjKind { OB_STRING, OB_INTS, OB_CLASS, OB_THROWABLE, OB_OTHER };
struct Obj {
  int kind;
  std::u16string s;
  std::vector<jint> v;
  std::string cls;
  void* direct = nullptr;   // borrowed as it is, not as a copy
  pthread_mutex_t* monitor = nullptr;
};
enum BufKind { B_UTF, B_CHARS, B_SCRIT, B_INTS, B_PCRIT };
const char* buf_name[] = {"GetStringUTFChars", "GetStringChars", "GetStringCritical", "GetIntArrayElements", "GetPrimitiveArrayCritical"};
struct Buf { int kind; Obj* o; bool copy; int n; };

// a reference to an object, as native code sees it: local to a thread and to a call, or global
struct Ref { Obj* o; int tid; bool global, alive; };
struct Env {
  JNIEnv_ env;
  bool active = false;           // a native method is running on this thread
  Obj* pending = nullptr;
  std::map<void*, Buf> bufs;
  std::set<Ref*> locals;
  std::vector<std::set<Ref*>> frames;
  std::vector<Obj*> monitors;    // entered, with repetitions
  int fallible = 0, jnth = 0, jmode = 0, jfired = 0, calls = 0;
};
std::set<Ref*> refs;
int globals;
Env envs[rt::MAXT];
uint64_t jvm_calls, jvm_fails;
JNINativeInterface_ table;
Env* me() { return &envs[rt::self() % rt::MAXT]; }

Obj* mk(int kind) { Obj* o = new Obj; o->kind = kind; return o; }
Ref* new_local(Obj* o) {
  if (!o) return nullptr;
  Ref* r = new Ref{o, rt::self(), false, true};
  refs.insert(r);
  me()->locals.insert(r);
  if (me()->locals.size() > 512) rt::violation("jni-leak", "the native method holds more than 512 local references");
  return r;
}
void raise(const std::string& cls) { Obj* o = mk(OB_THROWABLE); o->cls = cls; me()->pending = o; }
Ref* ref(const void* r, const char* fn) {
  Ref* x = (Ref*)r;
  if (!r) rt::violation("jni-misuse", "%s is given a null reference", fn);
  if (!refs.count(x)) rt::violation("jni-misuse", "%s is given an invalid reference", fn);
  if (!x->global && x->tid != rt::self()) rt::violation("jni-misuse", "%s is given a local reference of another thread", fn);
  if (!x->alive) rt::violation("jni-misuse", "%s is given a reference that is no longer valid", fn);
  return x;
}
Obj* get(const void* r, int kind, const char* fn) {
  Obj* o = ref(r, fn)->o;
  if (kind >= 0 && o->kind != kind) rt::violation("jni-misuse", "%s is given an object of the wrong kind", fn);
  return o;
}
void call(JNIEnv* e, const char* fn, bool while_pending = false) {
  Env* m = me();
  if (e != &m->env) rt::violation("jni-misuse", "%s is called with the JNIEnv of another thread", fn);
  if (!m->active) rt::violation("jni-misuse", "%s is called outside a native method", fn);
  m->calls++;
  if (m->calls > 100000) rt::violation("no-progress", "the binding made more than 100000 calls to the JVM");
  if (m->pending && !while_pending) rt::violation("jni-misuse", "%s is called while the exception %s is pending", fn, m->pending->cls.c_str());
  for (auto& b : m->bufs)
    if ((b.second.kind == B_SCRIT || b.second.kind == B_PCRIT) && !while_pending && strncmp(fn, "GetStringCritical", 17) && strncmp(fn, "GetPrimitiveArrayCritical", 25))
      rt::violation("jni-misuse", "%s is called inside a critical section", fn);
}
// does this call of the JVM fail? with silent: may it fail without an exception?
bool fails(bool silent) {
  Env* m = me();
  if (++m->fallible != m->jnth) return false;
  m->jfired++;
  if (!(silent && m->jmode)) raise("java/lang/OutOfMemoryError");
  return true;
}
std::string mutf8(const std::u16string& s) {
  std::string o;
  for (char16_t c : s) {
    if (c && c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  return o;
}
bool un_mutf8(const char* p, std::u16string* o) {
  while (*p) {
    unsigned char c = *p;
    if (c < 0x80) { *o += (char16_t)c; p++; }
    else if ((c & 0xE0) == 0xC0 && (p[1] & 0xC0) == 0x80) { *o += (char16_t)((c & 31) << 6 | (p[1] & 63)); p += 2; }
    else if ((c & 0xF0) == 0xE0 && (p[1] & 0xC0) == 0x80 && (p[2] & 0xC0) == 0x80) { *o += (char16_t)((c & 15) << 12 | (p[1] & 63) << 6 | (p[2] & 63)); p += 3; }
    else return false;
  }
  return true;
}
std::u16string utf16(const std::string& s) {
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(icu::StringPiece(s.data(), (int)s.size()));
  return std::u16string(u.getBuffer(), u.length());
}
std::u16string utf16(const std::vector<uint32_t>& t) {
  std::u16string o;
  for (uint32_t c : t) {
    if (c < 0x10000) o += (char16_t)c;
    else { o += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); o += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); }
  }
  return o;
}

// buffers lie in the simulated heap: their use after release, and beyond their
// end, and their being kept, are seen
void* lend(int kind, Obj* o, const void* data, size_t n, jboolean* copy) {
  if (o->direct && kind != B_UTF) {
    rt::Pause q;
    Buf& b = me()->bufs[o->direct];
    b = {kind, o, false, b.n + 1};   // may be borrowed more than once
    if (copy) *copy = JNI_FALSE;
    return o->direct;
  }
  void* p = malloc(n ? n : 1);     // by the code under test's allocator, may fail
  rt::Pause q;
  if (!p) return nullptr;
  memcpy(p, data, n);
  me()->bufs[p] = {kind, o, true, 1};
  if (copy) *copy = JNI_TRUE;
  return p;
}
// gives a borrowed buffer back; what is to be freed
void* take(int kind, Obj* o, const void* p, const char* fn) {
  auto& bufs = me()->bufs;
  auto i = bufs.find((void*)p);
  if (i == bufs.end()) rt::violation("jni-balance", "%s is given a buffer that is not borrowed (given back twice?)", fn);
  if (i->second.kind != kind && i->second.n == 1) rt::violation("jni-balance", "%s is given a buffer borrowed with %s", fn, buf_name[i->second.kind]);
  if (i->second.o != o) rt::violation("jni-balance", "%s is given a buffer of another object", fn);
  bool copy = i->second.copy;
  if (--i->second.n == 0) bufs.erase(i);
  return copy ? (void*)p : nullptr;
}

#define ENTER(name, ...) rt::Pause pause_; jvm_calls++; call(e, name, ##__VA_ARGS__)

const char* JNICALL j_GetStringUTFChars(JNIEnv* e, jstring s, jboolean* c) {
  std::string* d; Obj* o;
  { ENTER("GetStringUTFChars"); o = get(s, OB_STRING, "GetStringUTFChars"); if (fails(true)) return nullptr; d = new std::string(mutf8(o->s)); }
  void* r = lend(B_UTF, o, d->c_str(), d->size() + 1, c);
  rt::Pause p; delete d; return (const char*)r;
}
void JNICALL j_ReleaseStringUTFChars(JNIEnv* e, jstring s, const char* p) {
  void* f;
  { ENTER("ReleaseStringUTFChars", true); f = take(B_UTF, get(s, OB_STRING, "ReleaseStringUTFChars"), p, "ReleaseStringUTFChars"); }
  free(f);
}
const jchar* JNICALL j_GetStringChars(JNIEnv* e, jstring s, jboolean* c) {
  Obj* o;
  { ENTER("GetStringChars"); o = get(s, OB_STRING, "GetStringChars"); if (fails(true)) return nullptr; }
  return (const jchar*)lend(B_CHARS, o, o->s.data(), o->s.size() * 2, c);
}
void JNICALL j_ReleaseStringChars(JNIEnv* e, jstring s, const jchar* p) {
  void* f;
  { ENTER("ReleaseStringChars", true); f = take(B_CHARS, get(s, OB_STRING, "ReleaseStringChars"), p, "ReleaseStringChars"); }
  free(f);
}
const jchar* JNICALL j_GetStringCritical(JNIEnv* e, jstring s, jboolean* c) {
  Obj* o;
  { ENTER("GetStringCritical"); o = get(s, OB_STRING, "GetStringCritical"); if (fails(true)) return nullptr; }
  return (const jchar*)lend(B_SCRIT, o, o->s.data(), o->s.size() * 2, c);
}
void JNICALL j_ReleaseStringCritical(JNIEnv* e, jstring s, const jchar* p) {
  void* f;
  { ENTER("ReleaseStringCritical", true); f = take(B_SCRIT, get(s, OB_STRING, "ReleaseStringCritical"), p, "ReleaseStringCritical"); }
  free(f);
}
jsize JNICALL j_GetStringLength(JNIEnv* e, jstring s) { ENTER("GetStringLength"); return (jsize)get(s, OB_STRING, "GetStringLength")->s.size(); }
jsize JNICALL j_GetStringUTFLength(JNIEnv* e, jstring s) { ENTER("GetStringUTFLength"); return (jsize)mutf8(get(s, OB_STRING, "GetStringUTFLength")->s).size(); }
void JNICALL j_GetStringRegion(JNIEnv* e, jstring s, jsize a, jsize n, jchar* b) {
  ENTER("GetStringRegion");
  Obj* o = get(s, OB_STRING, "GetStringRegion");
  if (a < 0 || n < 0 || (size_t)a + n > o->s.size()) { raise("java/lang/StringIndexOutOfBoundsException"); return; }
  memcpy(b, (o->direct ? (char16_t*)o->direct : o->s.data()) + a, n * 2);
}
void JNICALL j_GetStringUTFRegion(JNIEnv* e, jstring s, jsize a, jsize n, char* b) {
  ENTER("GetStringUTFRegion");
  Obj* o = get(s, OB_STRING, "GetStringUTFRegion");
  if (a < 0 || n < 0 || (size_t)a + n > o->s.size()) { raise("java/lang/StringIndexOutOfBoundsException"); return; }
  std::string d = mutf8(o->s.substr(a, n));
  memcpy(b, d.c_str(), d.size() + 1);
}
jstring JNICALL j_NewStringUTF(JNIEnv* e, const char* p) {
  ENTER("NewStringUTF");
  if (!p) return nullptr;
  if (fails(false)) return nullptr;
  Obj* o = mk(OB_STRING);
  if (!un_mutf8(p, &o->s)) rt::violation("jni-misuse", "NewStringUTF is given text that is not modified UTF-8");
  return (jstring)new_local(o);
}
jstring JNICALL j_NewString(JNIEnv* e, const jchar* p, jsize n) {
  ENTER("NewString");
  if (fails(false)) return nullptr;
  Obj* o = mk(OB_STRING);
  o->s.assign((const char16_t*)p, n);
  return (jstring)new_local(o);
}
jsize JNICALL j_GetArrayLength(JNIEnv* e, jarray a) { ENTER("GetArrayLength"); return (jsize)get(a, OB_INTS, "GetArrayLength")->v.size(); }
jintArray JNICALL j_NewIntArray(JNIEnv* e, jsize n) {
  ENTER("NewIntArray");
  if (n < 0) { raise("java/lang/NegativeArraySizeException"); return nullptr; }
  if (fails(false)) return nullptr;
  Obj* o = mk(OB_INTS);
  o->v.resize(n);
  return (jintArray)new_local(o);
}
jint* JNICALL j_GetIntArrayElements(JNIEnv* e, jintArray a, jboolean* c) {
  Obj* o;
  { ENTER("GetIntArrayElements"); o = get(a, OB_INTS, "GetIntArrayElements"); if (fails(true)) return nullptr; }
  return (jint*)lend(B_INTS, o, o->v.data(), o->v.size() * 4, c);
}
void give_ints(JNIEnv* e, int kind, jarray a, void* p, jint mode, const char* fn) {
  void* f;
  {
    ENTER(fn, true);
    Obj* o = get(a, OB_INTS, fn);
    auto& bufs = me()->bufs;
    auto i = bufs.find(p);
    if (i != bufs.end() && i->second.kind == kind && i->second.copy && mode != JNI_ABORT) memcpy(o->v.data(), p, o->v.size() * 4);
    if (mode == JNI_COMMIT) { if (i == bufs.end()) rt::violation("jni-balance", "%s is given a buffer that is not borrowed", fn); return; }
    f = take(kind, o, p, fn);
  }
  free(f);
}
void JNICALL j_ReleaseIntArrayElements(JNIEnv* e, jintArray a, jint* p, jint mode) { give_ints(e, B_INTS, a, p, mode, "ReleaseIntArrayElements"); }
void* JNICALL j_GetPrimitiveArrayCritical(JNIEnv* e, jarray a, jboolean* c) {
  Obj* o;
  { ENTER("GetPrimitiveArrayCritical"); o = get(a, OB_INTS, "GetPrimitiveArrayCritical"); if (fails(true)) return nullptr; }
  return lend(B_PCRIT, o, o->v.data(), o->v.size() * 4, c);
}
void JNICALL j_ReleasePrimitiveArrayCritical(JNIEnv* e, jarray a, void* p, jint mode) { give_ints(e, B_PCRIT, a, p, mode, "ReleasePrimitiveArrayCritical"); }
void JNICALL j_GetIntArrayRegion(JNIEnv* e, jintArray a, jsize s, jsize n, jint* b) {
  ENTER("GetIntArrayRegion");
  Obj* o = get(a, OB_INTS, "GetIntArrayRegion");
  if (s < 0 || n < 0 || (size_t)s + n > o->v.size()) { raise("java/lang/ArrayIndexOutOfBoundsException"); return; }
  memcpy(b, (o->direct ? (jint*)o->direct : o->v.data()) + s, n * 4);
}
void JNICALL j_SetIntArrayRegion(JNIEnv* e, jintArray a, jsize s, jsize n, const jint* b) {
  ENTER("SetIntArrayRegion");
  Obj* o = get(a, OB_INTS, "SetIntArrayRegion");
  if (s < 0 || n < 0 || (size_t)s + n > o->v.size()) { raise("java/lang/ArrayIndexOutOfBoundsException"); return; }
  memcpy((o->direct ? (jint*)o->direct : o->v.data()) + s, b, n * 4);
}
jclass JNICALL j_FindClass(JNIEnv* e, const char* n) {
  ENTER("FindClass");
  if (fails(false)) return nullptr;
  static const char* known[] = {"java/lang/RuntimeException", "java/lang/IllegalArgumentException", "java/lang/IllegalStateException", "java/lang/OutOfMemoryError", "java/lang/Exception", "java/lang/Error", "java/lang/NullPointerException",
                                "java/lang/Throwable", "java/lang/IndexOutOfBoundsException", "java/lang/ArrayIndexOutOfBoundsException", "java/lang/InternalError", "java/lang/UnsupportedOperationException", "java/io/IOException", "java/lang/String",
                                "java/lang/Object", "java/lang/ArithmeticException", "java/util/NoSuchElementException", "java/lang/NegativeArraySizeException", "java/lang/VirtualMachineError", "java/lang/NumberFormatException"};
  for (auto k : known) if (!strcmp(k, n)) { Obj* o = mk(OB_CLASS); o->cls = n; return (jclass)new_local(o); }
  raise("java/lang/NoClassDefFoundError");
  return nullptr;
}
jint JNICALL j_ThrowNew(JNIEnv* e, jclass c, const char*) {
  ENTER("ThrowNew");
  Obj* o = get(c, OB_CLASS, "ThrowNew");
  if (fails(false)) return JNI_ERR;
  raise(o->cls);
  return JNI_OK;
}
jint JNICALL j_Throw(JNIEnv* e, jthrowable t) {
  ENTER("Throw");
  me()->pending = get(t, OB_THROWABLE, "Throw");
  return JNI_OK;
}
jmethodID JNICALL j_GetMethodID(JNIEnv* e, jclass c, const char*, const char*) {
  ENTER("GetMethodID");
  get(c, OB_CLASS, "GetMethodID");
  if (fails(false)) return nullptr;
  return (jmethodID)new_local(mk(OB_OTHER));
}
jobject new_object(JNIEnv* e, jclass c) {
  ENTER("NewObject");
  Obj* k = get(c, OB_CLASS, "NewObject");
  if (fails(false)) return nullptr;
  Obj* o = mk(OB_THROWABLE);
  o->cls = k->cls;
  return (jobject)new_local(o);
}
jobject JNICALL j_NewObject(JNIEnv* e, jclass c, jmethodID, ...) { return new_object(e, c); }
jobject JNICALL j_NewObjectV(JNIEnv* e, jclass c, jmethodID, va_list) { return new_object(e, c); }
jobject JNICALL j_NewObjectA(JNIEnv* e, jclass c, jmethodID, const jvalue*) { return new_object(e, c); }
jthrowable JNICALL j_ExceptionOccurred(JNIEnv* e) { ENTER("ExceptionOccurred", true); return (jthrowable)new_local(me()->pending); }
void JNICALL j_ExceptionDescribe(JNIEnv* e) { ENTER("ExceptionDescribe", true); }
void JNICALL j_ExceptionClear(JNIEnv* e) { ENTER("ExceptionClear", true); me()->pending = nullptr; }
jboolean JNICALL j_ExceptionCheck(JNIEnv* e) { ENTER("ExceptionCheck", true); return me()->pending ? JNI_TRUE : JNI_FALSE; }
void JNICALL j_FatalError(JNIEnv* e, const char* m) { rt::Pause p; rt::violation("terminate", "the binding ends the JVM with FatalError: %s", m ? m : ""); }
void drop(Ref* r) { r->alive = false; me()->locals.erase(r); for (auto& f : me()->frames) f.erase(r); }
void JNICALL j_DeleteLocalRef(JNIEnv* e, jobject o) {
  ENTER("DeleteLocalRef", true);
  if (!o) return;
  Ref* r = ref(o, "DeleteLocalRef");
  if (r->global) rt::violation("jni-misuse", "DeleteLocalRef is given a global reference");
  drop(r);
}
void JNICALL j_DeleteGlobalRef(JNIEnv* e, jobject o) {
  ENTER("DeleteGlobalRef", true);
  if (!o) return;
  Ref* r = ref(o, "DeleteGlobalRef");
  if (!r->global) rt::violation("jni-misuse", "DeleteGlobalRef is given a local reference");
  r->alive = false;
  globals--;
}
jobject JNICALL j_NewLocalRef(JNIEnv* e, jobject o) { ENTER("NewLocalRef"); if (!o) return nullptr; Ref* r = ref(o, "NewLocalRef"); if (fails(false)) return nullptr; return (jobject)new_local(r->o); }
jobject JNICALL j_NewGlobalRef(JNIEnv* e, jobject o) {
  ENTER("NewGlobalRef");
  if (!o) return nullptr;
  Ref* r = ref(o, "NewGlobalRef");
  if (fails(false)) return nullptr;
  Ref* g = new Ref{r->o, 0, true, true};
  refs.insert(g);
  if (++globals > 64) rt::violation("jni-leak", "the binding holds more than 64 global references");
  return (jobject)g;
}
jint JNICALL j_EnsureLocalCapacity(JNIEnv* e, jint) { ENTER("EnsureLocalCapacity"); return fails(false) ? JNI_ERR : JNI_OK; }
jint JNICALL j_PushLocalFrame(JNIEnv* e, jint) {
  ENTER("PushLocalFrame");
  if (fails(false)) return JNI_ERR;
  me()->frames.push_back(me()->locals);
  return JNI_OK;
}
jobject JNICALL j_PopLocalFrame(JNIEnv* e, jobject o) {
  ENTER("PopLocalFrame", true);
  Env* m = me();
  if (m->frames.empty()) rt::violation("jni-misuse", "PopLocalFrame without PushLocalFrame");
  Obj* k = o ? ref(o, "PopLocalFrame")->o : nullptr;
  std::set<Ref*> now = m->locals, keep = m->frames.back();
  m->frames.pop_back();
  for (auto r : now) if (!keep.count(r)) drop(r);
  return (jobject)new_local(k);
}
jint JNICALL j_GetVersion(JNIEnv* e) { ENTER("GetVersion"); return JNI_VERSION_1_6; }
jclass JNICALL j_GetObjectClass(JNIEnv* e, jobject o) { ENTER("GetObjectClass"); Obj* k = get(o, -1, "GetObjectClass"); Obj* c = mk(OB_CLASS); c->cls = k->cls; return (jclass)new_local(c); }
jboolean JNICALL j_IsSameObject(JNIEnv* e, jobject a, jobject b) { ENTER("IsSameObject"); return (a ? get(a, -1, "IsSameObject") : nullptr) == (b ? get(b, -1, "IsSameObject") : nullptr); }
jint JNICALL j_MonitorEnter(JNIEnv* e, jobject o) {
  pthread_mutex_t* mon;
  {
    ENTER("MonitorEnter");
    Obj* k = get(o, -1, "MonitorEnter");
    if (!k->monitor) {
      pthread_mutexattr_t a;
      pthread_mutexattr_init(&a);
      pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
      k->monitor = new pthread_mutex_t;
      pthread_mutex_init(k->monitor, &a);
    }
    me()->monitors.push_back(k);
    mon = k->monitor;
  }
  pthread_mutex_lock(mon);
  return JNI_OK;
}
jint JNICALL j_MonitorExit(JNIEnv* e, jobject o) {
  Obj* k;
  {
    ENTER("MonitorExit", true);
    k = get(o, -1, "MonitorExit");
    auto& l = me()->monitors;
    auto i = std::find(l.begin(), l.end(), k);
    if (i == l.end()) rt::violation("jni-misuse", "MonitorExit is given an object that this thread has not entered");
    l.erase(i);
  }
  pthread_mutex_unlock(k->monitor);
  return JNI_OK;
}
JNIInvokeInterface_ vm_table;
JavaVM java_vm;
jint JNICALL v_GetEnv(JavaVM*, void** e, jint) { *e = &me()->env; return JNI_OK; }
jint JNICALL v_Attach(JavaVM*, void** e, void*) { *e = &me()->env; return JNI_OK; }
jint JNICALL v_Detach(JavaVM*) { return me()->active ? JNI_ERR : JNI_OK; }
jint JNICALL j_GetJavaVM(JNIEnv* e, JavaVM** vm) { ENTER("GetJavaVM"); *vm = &java_vm; return JNI_OK; }

void unsupported() { rt::Pause p; rt::violation("harness-crash", "the binding calls a JNI function the simulated JVM does not have"); }

void make_table() {
  void** t = (void**)&table;
  for (size_t i = 0; i < sizeof table / sizeof *t; i++) t[i] = (void*)unsupported;
#define S(n) table.n = j_##n
  S(GetStringUTFChars); S(ReleaseStringUTFChars); S(GetStringChars); S(ReleaseStringChars); S(GetStringCritical); S(ReleaseStringCritical);
  S(GetStringLength); S(GetStringUTFLength); S(GetStringRegion); S(GetStringUTFRegion); S(NewStringUTF); S(NewString); S(GetArrayLength);
  S(NewIntArray); S(GetIntArrayElements); S(ReleaseIntArrayElements); S(GetPrimitiveArrayCritical); S(ReleasePrimitiveArrayCritical);
  S(GetIntArrayRegion); S(SetIntArrayRegion); S(FindClass); S(ThrowNew); S(Throw); S(GetMethodID); S(NewObject); S(NewObjectV); S(NewObjectA);
  S(ExceptionOccurred); S(ExceptionDescribe); S(ExceptionClear); S(ExceptionCheck); S(FatalError); S(DeleteLocalRef); S(DeleteGlobalRef);
  S(NewLocalRef); S(NewGlobalRef); S(EnsureLocalCapacity); S(PushLocalFrame); S(PopLocalFrame); S(GetVersion); S(GetObjectClass); S(IsSameObject);
  S(MonitorEnter); S(MonitorExit); S(GetJavaVM);
#undef S
  void** u = (void**)&vm_table;
  for (size_t i = 0; i < sizeof vm_table / sizeof *u; i++) u[i] = (void*)unsupported;
  vm_table.GetEnv = v_GetEnv;
  vm_table.AttachCurrentThread = vm_table.AttachCurrentThreadAsDaemon = v_Attach;
  vm_table.DetachCurrentThread = v_Detach;
  java_vm.functions = &vm_table;
  for (auto& x : envs) x.env.functions = &table;
}

// the Java object behind a handle: all threads that share the handle have this one
struct JSlots { jlong h[8] = {}; Obj* self[8] = {}; };
bool library_loaded;
void load_library() {   // System.loadLibrary
  if (library_loaded) return;
  library_loaded = true;
  if (!JNI_OnLoad) return;
  Env* m = me();
  m->active = true;
  rt::OpCtl ctl;
  rt::enter(&ctl);
  JNI_OnLoad(&java_vm, nullptr);
  rt::leave();
  m->active = false;
  for (auto r : m->locals) r->alive = false;
  m->locals.clear();
  m->pending = nullptr;
}
std::string ints(const std::vector<jint>& v) { std::string s; for (auto i : v) { s += std::to_string(i); s += ','; } return s; }

// the argument of a call as a Java object
Obj* java_arg(const Case& c, const Op& o, bool direct) {
  Obj* arg = mk(o.kind == O_DECODE ? OB_INTS : OB_STRING);
  if (o.kind == O_LOAD) arg->s = utf16(c.cfgs[o.arg]);
  else if (o.kind == O_ENCODE) arg->s = utf16(o.text);
  else arg->v.assign(o.ids.begin(), o.ids.end());
  if (direct && o.kind != O_LOAD) {
    size_t n = o.kind == O_DECODE ? arg->v.size() * 4 : arg->s.size() * 2;
    rt::OpCtl ctl;
    rt::enter(&ctl);
    arg->direct = malloc(n ? n : 1);
    rt::leave();
    memcpy(arg->direct, o.kind == O_DECODE ? (const void*)arg->v.data() : arg->s.data(), n);
  }
  return arg;
}
void drop_direct(Obj* o) {
  if (!o->direct) return;
  rt::OpCtl ctl;
  rt::enter(&ctl);
  free(o->direct);
  rt::leave();
  o->direct = nullptr;
}
bool direct_intact(Obj* o) {
  if (!o->direct) return true;
  return o->kind == OB_INTS ? !memcmp(o->direct, o->v.data(), o->v.size() * 4) : !memcmp(o->direct, o->s.data(), o->s.size() * 2);
}
// one call of the binding; result R:value, J:pending exception
std::string jop(JSlots* s, const Case& c, const Op& o, rt::OpCtl* ctl, int* jcalls = nullptr, Obj* shared = nullptr) {
  rt::OpCtl local;
  if (!ctl) ctl = &local;
  if (o.kind == O_DESTROY) {
    Tokenizer* t = (Tokenizer*)s->h[o.tok];
    s->h[o.tok] = 0;
    rt::enter(ctl); delete t; rt::leave();
    return "R:";
  }
  if (o.kind == O_LOAD) {
    if (s->h[o.tok]) { Op d = op_simple(O_DESTROY, o.tok); jop(s, c, d, nullptr); }
  } else if (!s->h[o.tok]) return "R:no tokenizer";
  Env* m = me();
  load_library();
  m->bufs.clear();
  m->frames.clear();
  m->monitors.clear();
  m->pending = nullptr;
  m->fallible = m->jfired = m->calls = 0;
  m->jnth = o.jnth;
  m->jmode = o.jmode;
  ctl->fault = o.fault;
  if (!s->self[o.tok] || o.kind == O_LOAD) s->self[o.tok] = mk(OB_OTHER);
  Ref* self = new_local(s->self[o.tok]);
  Obj* arg = shared ? shared : java_arg(c, o, c.num("direct"));
  Ref* argr = new_local(arg);
  std::u16string s0 = arg->s;
  std::vector<jint> v0 = arg->v;
  std::string r;
  void* ret = nullptr;
  rt::dirty_stack(c.amb.fill);
  m->active = true;
  JNIEnv* e = &m->env;
  try {
    rt::enter(ctl);
    if (o.kind == O_LOAD) { jlong h = Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(e, (jobject)self, (jstring)argr); rt::leave(); s->h[o.tok] = h; ret = (void*)h; }
    else if (o.kind == O_ENCODE) { ret = Java_xyz_omkar_tokenizers_Tokenizer_encode(e, (jobject)self, s->h[o.tok], (jstring)argr, o.flag); rt::leave(); }
    else { ret = Java_xyz_omkar_tokenizers_Tokenizer_decode(e, (jobject)self, s->h[o.tok], (jintArray)argr, o.flag); rt::leave(); }
  } catch (...) {
    rt::leave();
    rt::violation("escaped-exception", "a C++ exception leaves the native method for the JVM (%s)", describe(o).substr(0, 300).c_str());
  }
  m->active = false;
  jvm_fails += m->jfired;
  if (jcalls) *jcalls = m->fallible;
  if (!m->bufs.empty()) rt::violation("jni-balance", "the native method returns without giving back what it borrowed with %s (%s)", buf_name[m->bufs.begin()->second.kind], describe(o).substr(0, 300).c_str());
  if (!m->monitors.empty()) rt::violation("jni-balance", "the native method returns inside a monitor (%s)", describe(o).substr(0, 300).c_str());
  if (arg->s != s0 || arg->v != v0 || !direct_intact(arg)) rt::violation("wrong-result", "the native method changed its argument");
  if (!shared) drop_direct(arg);
  Obj* x = ret && !m->pending && o.kind != O_LOAD ? get(ret, o.kind == O_ENCODE ? OB_INTS : OB_STRING, "the JVM's return path") : nullptr;
  for (auto r : m->locals) r->alive = false;
  m->locals.clear();
  if (m->pending) {
    if (o.kind == O_LOAD && ret) { s->h[o.tok] = 0; rt::violation("leak", "newTokenizer returns a tokenizer together with a pending exception: the caller never sees it"); }
    return "J:" + m->pending->cls;
  }
  if (!ret) rt::violation("no-result", "the native method returns null without a pending exception (%s)", describe(o).substr(0, 300).c_str());
  if (o.kind == O_LOAD) return "R:loaded";
  if (o.kind == O_ENCODE) return "R:" + ints(x->v);
  return "R:" + mutf8(x->s);
}
// what the C++ library says, as the binding should give it
std::string expected(const Op& o, const std::string& r) {
  if (r[0] != 'R') return "J";
  if (o.kind == O_LOAD || o.kind == O_DESTROY) return r;
  if (r == "R:no tokenizer") return r;
  if (o.kind == O_ENCODE) return r.substr(0, r.find('|'));
  return "R:" + mutf8(utf16(r.substr(2)));
}
// how many replacement characters stand for bytes that are no UTF-8 is left open
std::string squeeze(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s.compare(i, 3, "\xEF\xBF\xBD") == 0 && o.size() >= 3 && o.compare(o.size() - 3, 3, "\xEF\xBF\xBD") == 0) i += 2;
    else o += s[i];
  }
  return o;
}
bool same(const std::string& got, const std::string& want) { return want == "J" ? got[0] == 'J' : got == want || squeeze(got) == squeeze(want); }
bool faulted_ok(const std::string& got, const std::string& want) { return got[0] == 'J' || same(got, want); }

Case gen_C12(uint64_t seed, int index, bool thorough) {
  Rng r(seed * 1000003 + index + 53);
  Case c;
  Profile p = gen_profile(r);
  c.cfgs = {p.json};
  std::vector<Op> ops{op_load(0, 0)};
  if (r.p(1, 8)) {      // a configuration that does not load
    std::string bad = p.json;
    int k = (int)r.below(4);
    if (k == 0) bad.resize(r.below(bad.size()));
    else if (k == 1) bad = "";
    else if (k == 2) bad = "{}";
    else bad.insert(r.below(bad.size()), "}{");
    c.cfgs.push_back(bad);
    ops.insert(ops.begin(), op_load(0, 1));
  }
  int n = r.range(1, 5);
  for (int i = 0; i < n; i++) {
    Op o = gen_op(r, p, 0, false);
    if (o.kind == O_DECODE && r.p(1, 3)) o.ids.push_back(r.p(1, 2) ? -1 : 2000000);
    if (r.p(1, 12)) lengthen(r, p, &o, 3000);
    if (o.kind == O_ENCODE && r.p(1, 8)) o.text.insert(o.text.begin() + r.below(o.text.size() + 1), 0xD800 + (uint32_t)r.below(1024));
    int k = (int)r.below(8);
    if (k == 0) o.fault = gen_fault(r, 300);
    else if (k == 1) { o.jnth = r.range(1, 5); o.jmode = (int)r.below(2); }
    ops.push_back(o);
  }
  c.threads.push_back(ops);
  Op last = r.p(1, 4) ? op_load(0, 0) : gen_op(r, p, 0, false);
  c.threads.push_back({last});
  int k = (int)r.below(8);
  c.set("mode", k < 4 ? rt::AF_ONCE : k < 6 ? rt::AF_FROM : k < 7 ? rt::AF_BURST : rt::AF_EVERY);
  c.set("arg", r.range(2, 6));
  c.set("offset", (long)r.below(100000));
  c.set("max", thorough ? 200 : 30);
  c.set("direct", r.p(1, 3));
  c.amb = gen_ambient(r);
  return c;
}
Verdict exec_C12(const Case& c) {
  Verdict v;
  make_table();
  if (c.threads.size() < 2 || c.threads[1].empty()) return v;
  std::vector<Op> ops = c.threads[0];
  const Op last = c.threads[1][0];
  if (last.kind != O_LOAD && (ops.empty() || ops[0].kind != O_LOAD)) return v;
  // the library itself, each call on its own
  std::vector<std::string> want;
  std::vector<Op> seq;
  int cfg = -1;
  for (size_t i = 0; i <= ops.size(); i++) {
    Op o = i < ops.size() ? ops[i] : last;
    o.fault = rt::AllocFault();
    o.jnth = 0;
    if (o.kind != O_LOAD) { if (cfg < 0) { want.push_back("R:no tokenizer"); continue; } seq.assign(1, op_load(0, cfg)); seq.push_back(o); }
    else seq.assign(1, o);
    Run r = run_seq(c, seq, nullptr, true);
    fold(&v, r);
    if (v.violated || v.infra) return v;
    std::string e = expected(o, r.res.back());
    if (o.kind == O_LOAD) cfg = e == "R:loaded" ? o.arg : -1;
    want.push_back(e);
  }
  int total = 0, jtotal = 0;
  count_ops(ops);
  Run r = fork_run(c, [&] {
    JSlots s;
    for (auto& o : ops) emit(jop(&s, c, o, nullptr), true);
    rt::OpCtl ctl;
    int j = 0;
    emit(jop(&s, c, last, &ctl, &j), true);
    emit(std::to_string(ctl.allocs));
    emit(std::to_string(j));
    rt::check_heap();
    jop(&s, c, op_simple(O_DESTROY, 0), nullptr);
    emit(std::to_string(jvm_calls));
    emit(std::to_string(jvm_fails));
  });
  fold(&v, r);
  if (v.violated || v.infra) return v;
  total = atoi(r.res[ops.size() + 1].c_str());
  jtotal = atoi(r.res[ops.size() + 2].c_str());
  tot.counters["calls to the simulated JVM"] += atol(r.res[ops.size() + 3].c_str());
  tot.counters["failed calls of the simulated JVM"] += atol(r.res[ops.size() + 4].c_str());
  bool usable = true;
  for (size_t i = 0; i <= ops.size(); i++) {
    const Op& o = i < ops.size() ? ops[i] : last;
    bool faulted = o.fault.mode || o.jnth;
    std::string g = r.res[i];
    if (o.kind == O_LOAD) usable = g == "R:loaded";
    if (o.kind != O_LOAD && !usable) continue;
    if (faulted ? !faulted_ok(g, want[i]) : !same(g, want[i])) { mismatch(&v, "wrong-result", "native call " + std::to_string(i + 1) + " (" + clip(describe(o), 200) + ")", g, want[i]); return v; }
  }
  // every failure of the JVM and many of the allocator in the last call
  std::vector<Op> plans;
  if (c.num("jnth")) { Op x = last; x.jnth = (int)c.num("jnth"); x.jmode = (int)c.num("jmode"); plans.push_back(x); }
  else if (c.num("nth")) { Op x = last; x.fault.mode = (int)c.num("mode"); x.fault.nth = (uint32_t)c.num("nth"); x.fault.arg = (uint32_t)c.num("arg"); plans.push_back(x); }
  else {
    for (int k = 1; k <= jtotal + 2; k++)
      for (int m = 0; m < 2; m++) { Op x = last; x.jnth = k; x.jmode = m; plans.push_back(x); }
    Rng g(c.num("offset"));
    long max = c.num("max");
    for (long k = 0; k < max && k < total; k++) {
      Op x = last;
      x.fault.mode = (int)c.num("mode");
      x.fault.arg = (uint32_t)c.num("arg");
      x.fault.nth = total <= max ? (uint32_t)k + 1 : 1 + (uint32_t)(g.p(1, 3) ? g.below(total < 30 ? total : 30) : g.below(total));
      if (g.p(1, 6)) { x.jnth = g.range(1, jtotal + 2); x.jmode = (int)g.below(2); }
      plans.push_back(x);
    }
  }
  std::vector<Op> clean = ops;
  for (auto& o : clean) { o.fault = rt::AllocFault(); o.jnth = 0; }
  Op again = last;
  for (size_t b = 0; b < plans.size(); b += 6) {
    size_t e = std::min(plans.size(), b + 6);
    Run q = fork_run(c, [&] {
      JSlots s;
      for (auto& o : clean) if (o.kind == O_LOAD) jop(&s, c, o, nullptr);
      for (size_t i = b; i < e; i++) {
        emit(jop(&s, c, plans[i], nullptr), true);
        emit(jop(&s, c, again, nullptr), true);
        rt::check_heap();
        leak_cycles(c, 4, [&] {
          if (last.kind != O_LOAD && (i & 3) == 0) jop(&s, c, op_load(0, 0), nullptr);
          jop(&s, c, plans[i], nullptr);
          if (last.kind == O_LOAD) jop(&s, c, op_simple(O_DESTROY, 0), nullptr);
        });
        if (last.kind != O_LOAD) jop(&s, c, op_load(0, 0), nullptr);
      }
      jop(&s, c, op_simple(O_DESTROY, 0), nullptr);
      emit(std::to_string(jvm_calls));
      emit(std::to_string(jvm_fails));
    });
    fold(&v, q);
    size_t at = b + q.res.size() / 2;
    if (v.violated || v.infra) { if (at < plans.size()) v.msg += " [" + clip(describe(plans[at]), 200) + "]"; return v; }
    for (size_t i = b; i < e; i++) {
      const std::string& x = q.res[2 * (i - b)];
      if (!faulted_ok(x, want.back())) { mismatch(&v, "wrong-result", "native call (" + clip(describe(plans[i]), 200) + ")", x, want.back()); return v; }
      const std::string& y = q.res[2 * (i - b) + 1];
      if (!same(y, want.back())) { mismatch(&v, "wrong-result-later", "native call (" + clip(describe(again), 200) + ") after (" + clip(describe(plans[i]), 200) + ")", y, want.back()); return v; }
    }
    tot.counters["calls to the simulated JVM"] += atol(q.res[q.res.size() - 2].c_str());
    tot.counters["failed calls of the simulated JVM"] += atol(q.res[q.res.size() - 1].c_str());
  }
  v.nontrivial = v.hash;
  return v;
}

// ------------------------------------------------------------ C15
Case gen_C15(uint64_t seed, int index, bool) {
  Rng r(seed * 1000003 + index + 67);
  Case c;
  Profile p = gen_profile(r), p2 = r.p(1, 2) ? gen_profile(r) : r.p(1, 2) ? gen_twin(r, p) : p;
  c.cfgs = {p.json, p2.json};
  c.prelude.push_back(op_load(0, 0));
  std::vector<Op> pool = gen_pool(r, p, 0, r.range(2, 6));
  for (auto& o : pool) if (o.kind == O_DECODE && r.p(1, 3)) o.ids.push_back(r.p(1, 2) ? -1 : 2000000);
  if (r.p(1, 20)) lengthen(r, p, &pool[r.below(pool.size())], 1500);
  if (r.p(1, 3)) c.prelude.push_back(r.pick(pool));
  int n = r.p(1, 2) ? 2 : r.range(3, 4);
  for (int t = 0; t < n; t++) {
    c.threads.emplace_back();
    auto& l = c.threads.back();
    int k = r.range(1, n > 3 ? 3 : 4);
    bool own = r.p(1, 4);
    if (own) l.push_back(op_load(1 + t, (int)r.below(2)));
    for (int i = 0; i < k; i++) {
      Op o = r.pick(pool);
      if (own && r.p(2, 3)) { if (r.p(1, 2)) o = gen_op(r, p2, 0, false); o.tok = 1 + t; }
      l.push_back(o);
    }
    if (own && r.p(1, 2)) l.push_back(op_simple(O_DESTROY, 1 + t));
  }
  if (r.p(1, 2)) {
    Op& o = r.pick(r.pick(c.threads));
    if (o.kind == O_DESTROY) {}
    else if (r.p(1, 2)) o.fault = gen_fault(r, 300);
    else { o.jnth = r.range(1, 4); o.jmode = (int)r.below(2); }
  }
  c.set("direct", r.p(1, 2));
  gen_sched(r, &c);
  c.amb = gen_ambient(r);
  return c;
}
struct JArg { JSlots* s; const Case* c; int t; std::map<std::string, Obj*>* objs; };
std::string arg_key(const Op& o) { Op k = o; k.tok = 0; k.flag = true; k.fault = rt::AllocFault(); k.jnth = k.jmode = 0; return key_of(k); }
void jbody(void* a) {
  JArg* x = (JArg*)a;
  auto& ops = x->c->threads[x->t];
  for (size_t i = 0; i < ops.size(); i++) {
    auto k = x->objs->find(arg_key(ops[i]));
    std::string r = jop(x->s, *x->c, ops[i], nullptr, nullptr, k == x->objs->end() ? nullptr : k->second);
    emit(std::to_string(x->t) + "." + std::to_string(i) + "\x01" + r, true);
    rt::out->progress[x->t & 7] = (uint32_t)i + 1;
  }
}
Verdict exec_C15(const Case& c) {
  Verdict v;
  make_table();
  if (c.prelude.empty() || c.prelude[0].kind != O_LOAD) return v;
  for (auto& t : c.threads) count_ops(t);
  // each call alone, by the library itself
  uint64_t est = 0;
  std::map<std::string, std::string> want, alone;
  for (size_t t = 0; t < c.threads.size(); t++) {
    int cfg[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
    bool unsure[8] = {};
    cfg[0] = c.prelude[0].arg;
    for (size_t i = 0; i < c.threads[t].size(); i++) {
      Op o = c.threads[t][i];
      std::string tag = std::to_string(t) + "." + std::to_string(i);
      int k = o.tok & 7;
      if (o.kind == O_DESTROY) { cfg[k] = -1; unsure[k] = false; continue; }
      bool faulted = o.fault.mode || o.jnth;
      o.fault = rt::AllocFault();
      o.jnth = 0;
      if (o.kind == O_LOAD) { cfg[k] = o.arg; unsure[k] = faulted; }
      if (cfg[k] < 0) continue;
      std::vector<Op> seq{op_load(0, cfg[k])};
      if (o.kind != O_LOAD) { o.tok = 0; seq.push_back(o); }
      std::string key = std::to_string(cfg[k]) + (o.kind == O_LOAD ? "load" : key_of(o));
      if (!alone.count(key)) {
        Run r = run_seq(c, seq, nullptr, true);
        fold(&v, r);
        if (v.violated || v.infra) return v;
        alone[key] = expected(o, r.res.back());
        est += r.st.events;
      }
      want[tag] = (faulted ? "F" : unsure[k] ? "U" : "=") + alone[key];
    }
  }
  Run r = fork_run(c, [&] {
    JSlots s;
    for (auto& o : c.prelude) emit(jop(&s, c, o, nullptr), true);
    std::map<std::string, Obj*> objs;
    if (c.num("direct"))
      for (auto& t : c.threads) for (auto& o : t) if ((o.kind == O_ENCODE || o.kind == O_DECODE) && !objs.count(arg_key(o))) objs[arg_key(o)] = java_arg(c, o, true);
    rt::set_race(true);
    JArg a[rt::MAXT];
    void* p[rt::MAXT];
    int n = (int)c.threads.size();
    for (int i = 0; i < n; i++) { a[i] = {&s, &c, i, &objs}; p[i] = &a[i]; }
    rt::run_threads(sched_of(c, est), n, jbody, p);
    rt::check_heap();
    for (auto& x : objs) drop_direct(x.second);
    for (int i = 0; i < 8; i++) if (s.h[i]) jop(&s, c, op_simple(O_DESTROY, i), nullptr);
    rt::check_heap();
    emit("calls\x01" + std::to_string(jvm_calls));
    emit("fails\x01" + std::to_string(jvm_fails));
  });
  fold(&v, r);
  v.sw = r.sw;
  v.nontrivial = r.st.switches > 1 ? r.hash : 0;
  if (v.violated || v.infra) return v;
  auto got = tagged(r);
  tot.counters["calls to the simulated JVM"] += atol(got["calls"].c_str());
  tot.counters["failed calls of the simulated JVM"] += atol(got["fails"].c_str());
  for (auto& x : want) {
    size_t t = atoi(x.first.c_str()), i = atoi(x.first.c_str() + x.first.find('.') + 1);
    const Op& o = c.threads[t][i];
    std::string g = got[x.first], e = x.second.substr(1);
    bool ok = x.second[0] == 'F' ? faulted_ok(g, e) : x.second[0] == 'U' && g == "R:no tokenizer" ? true : same(g, e);
    if (!ok) { mismatch(&v, "wrong-result", "Java thread " + std::to_string(t + 1) + " native call " + std::to_string(i + 1) + " (" + clip(describe(o), 200) + ")", g, e); return v; }
  }
  return v;
}
}  // namespace

void jni_checks(std::vector<Check>* out) {
  out->push_back({"C12", 640, 10000, gen_C12, exec_C12, false});
  out->push_back({"C15", 4000, 60000, gen_C15, exec_C15, true});
}
