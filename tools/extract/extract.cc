// Mechanical extraction of the C++ function bodies of /repo into a JSON IR.
//
//   wodextract PREFIX OUT.json FILE.cc -- clang flags...
//
// Every function, constructor and method body whose definition lies in a file
// under PREFIX is emitted as a typed tree (statements and expressions as clang
// resolved them: overloads, implicit conversions, default arguments and
// template instantiations included).  What is dropped: parentheses, temporaries'
// materialisation and destructor calls, comments and source formatting, value
// category casts (the engine distinguishes lvalue and rvalue uses itself), and
// cv-qualifiers of local types.  Nothing is rewritten.
#include <fstream>
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"

using namespace clang;
namespace js = llvm::json;

static std::string gPrefix, gOut;

class Ser {
 public:
  explicit Ser(ASTContext& c) : C(c), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }
  ASTContext& C;
  PrintingPolicy PP;
  std::map<std::string, js::Value> types, records, globals, enums;
  std::set<std::string> typesBusy;
  std::map<const Decl*, int> ids;

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  std::string file(SourceLocation l) {
    l = C.getSourceManager().getExpansionLoc(l);
    return C.getSourceManager().getFilename(l).str();
  }
  int line(SourceLocation l) {
    return C.getSourceManager().getExpansionLineNumber(l);
  }
  bool inRepo(SourceLocation l) {
    return file(l).compare(0, gPrefix.size(), gPrefix) == 0;
  }

  // ---- types
  std::string type(QualType q) {
    q = C.getCanonicalType(q).getUnqualifiedType();
    std::string s = q.getAsString(PP);
    if (types.count(s) || typesBusy.count(s)) return s;
    typesBusy.insert(s);
    js::Object o;
    const Type* t = q.getTypePtr();
    if (auto* b = dyn_cast<BuiltinType>(t)) {
      if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (b->isInteger()) {
        o["k"] = "int";
        o["w"] = (int)C.getTypeSize(q);
        o["s"] = b->isSignedInteger();
      } else if (b->isFloatingPoint()) {
        o["k"] = "real";
        o["w"] = (int)C.getTypeSize(q);
      } else if (b->isVoidType()) o["k"] = "void";
      else o["k"] = "other";
    } else if (auto* e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      std::string n = e->getDecl()->getQualifiedNameAsString();
      o["n"] = n;
      if (!enums.count(n)) {
        js::Object vals;
        for (auto* c : e->getDecl()->enumerators())
          vals[c->getNameAsString()] = c->getInitVal().getExtValue();
        enums.emplace(n, js::Value(std::move(vals)));
      }
    } else if (t->isReferenceType()) {
      o["k"] = "ref";
      o["c"] = t->getPointeeType().isConstQualified();
      o["t"] = type(t->getPointeeType());
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["c"] = t->getPointeeType().isConstQualified();
      o["t"] = type(t->getPointeeType());
    } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["t"] = type(a->getElementType());
      o["n"] = (int64_t)a->getSize().getZExtValue();
    } else if (auto* r = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      auto* rd = r->getDecl();
      o["n"] = rd->getQualifiedNameAsString();
      js::Array args;
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        for (auto& ta : sp->getTemplateArgs().asArray()) args.push_back(targ(ta));
      }
      o["args"] = std::move(args);
      bool proto = false;
      auto* cx = dyn_cast<CXXRecordDecl>(rd);
      if (cx && cx->hasDefinition()) {
        for (auto& b : cx->bases()) {
          auto* bd = b.getType()->getAsCXXRecordDecl();
          if (bd) {
            auto n = bd->getQualifiedNameAsString();
            if (n == "google::protobuf::Message" ||
                n == "google::protobuf::MessageLite")
              proto = true;
          }
        }
        o["lambda"] = cx->isLambda();
      }
      o["proto"] = proto;
      if (cx && cx->hasDefinition() && !proto && inRepo(cx->getLocation()) &&
          !cx->isLambda() && !records.count(s)) {
        records.emplace(s, js::Value(nullptr));
        js::Object ro;
        js::Array fs;
        for (auto* f : cx->fields()) {
          js::Object fo;
          fo["n"] = f->getNameAsString();
          fo["t"] = type(f->getType());
          if (f->hasInClassInitializer() && f->getInClassInitializer() &&
              !f->getInClassInitializer()->isTypeDependent() &&
              !f->getInClassInitializer()->isValueDependent())
            fo["init"] = expr(f->getInClassInitializer());
          fs.push_back(std::move(fo));
        }
        ro["fields"] = std::move(fs);
        js::Array bs;
        for (auto& b : cx->bases()) bs.push_back(type(b.getType()));
        ro["bases"] = std::move(bs);
        records.erase(s);
        records.emplace(s, js::Value(std::move(ro)));
      }
    } else {
      o["k"] = "other";
    }
    types.emplace(s, js::Value(std::move(o)));
    return s;
  }
  js::Value targ(const TemplateArgument& ta) {
    switch (ta.getKind()) {
      case TemplateArgument::Type: return type(ta.getAsType());
      case TemplateArgument::Integral:
        return js::Value(ta.getAsIntegral().getExtValue());
      case TemplateArgument::Pack: {
        js::Array a;
        for (auto& x : ta.pack_elements()) a.push_back(targ(x));
        return js::Value(std::move(a));
      }
      default: return "?";
    }
  }

  std::string key(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    std::string s;
    llvm::raw_string_ostream os(s);
    f->getNameForDiagnostic(os, PP, true);
    os << "(";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) os << ", ";
      first = false;
      os << QualType(C.getCanonicalType(p->getType())).getAsString(PP);
    }
    os << ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst()) os << " const";
    return os.str();
  }

  js::Value real(const llvm::APFloat& v) {
    js::Object o;
    o["k"] = "real";
    llvm::SmallString<64> b;
    if (v.isInfinity()) o["v"] = v.isNegative() ? "-inf" : "inf";
    else if (v.isNaN()) o["v"] = "nan";
    else {
      v.toString(b, 0, 0);
      o["v"] = b.str().str();
    }
    o["w"] = &v.getSemantics() == &llvm::APFloat::IEEEsingle() ? 32 : 64;
    return js::Value(std::move(o));
  }

  bool fold(const Expr* e, js::Value& out) {
    if (e->isValueDependent() || e->isTypeDependent() || !e->isPRValue())
      return false;
    QualType t = C.getCanonicalType(e->getType());
    if (!t->isArithmeticType() && !t->isEnumeralType()) return false;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return false;
    if (r.Val.isInt()) {
      js::Object o;
      if (t->isBooleanType()) {
        o["k"] = "bool";
        o["v"] = r.Val.getInt().getBoolValue();
      } else {
        o["k"] = "int";
        auto& v = r.Val.getInt();
        llvm::SmallString<40> b;
        v.toString(b, 10, v.isSigned());
        o["v"] = b.str().str();
      }
      o["t"] = type(t);
      out = js::Value(std::move(o));
      return true;
    }
    if (r.Val.isFloat()) {
      out = real(r.Val.getFloat());
      (*out.getAsObject())["t"] = type(t);
      return true;
    }
    return false;
  }

  js::Array exprs(llvm::ArrayRef<const Expr*> es) {
    js::Array a;
    for (auto* e : es) a.push_back(expr(e));
    return a;
  }

  void callee(js::Object& o, const FunctionDecl* f) {
    if (!f) return;
    o["q"] = f->getQualifiedNameAsString();
    o["key"] = key(f);
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      js::Array a;
      for (auto& x : ta->asArray()) a.push_back(targ(x));
      o["targs"] = std::move(a);
    }
    js::Array pt;
    for (auto* p : f->parameters()) pt.push_back(type(p->getType()));
    o["pt"] = std::move(pt);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = type(C.getRecordType(m->getParent()));
      o["const"] = m->isConst();
      o["static"] = m->isStatic();
      o["virtual"] = m->isVirtual();
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator())
        o["copyassign"] = true;
    }
    if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      if (cd->isCopyOrMoveConstructor()) o["copy"] = true;
      if (cd->isDefaulted()) o["defaulted"] = true;
    }
  }

  js::Value expr(const Expr* e) {
    if (!e) return nullptr;
    js::Value folded(nullptr);
    if (fold(e, folded)) return folded;
    js::Object o;
    o["l"] = line(e->getBeginLoc());
    o["t"] = type(e->getType());
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : "?";
      o["v"] = js::fixUTF8(s);
      return js::Value(std::move(o));
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
      return js::Value(std::move(o));
    }
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm() && !(v->isStaticLocal() && !frozen(v))) {
          o["k"] = "var";
          o["id"] = id(v);
          o["n"] = v->getNameAsString();
        } else {
          o["k"] = "gvar";
          o["n"] = v->getQualifiedNameAsString();
          global(v);
        }
        return js::Value(std::move(o));
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fn";
        callee(o, f);
        return js::Value(std::move(o));
      }
      if (auto* b = dyn_cast<BindingDecl>(d)) {
        o["k"] = "binding";
        o["id"] = id(b);
        o["n"] = b->getNameAsString();
        return js::Value(std::move(o));
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "int";
        o["v"] = std::to_string(ec->getInitVal().getExtValue());
        return js::Value(std::move(o));
      }
      o["k"] = "unk";
      o["c"] = "DeclRef";
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "gvar";
        o["n"] = v->getQualifiedNameAsString();
        global(v);
        return js::Value(std::move(o));
      }
      o["k"] = "member";
      o["n"] = x->getMemberDecl()->getNameAsString();
      o["arrow"] = x->isArrow();
      o["b"] = expr(x->getBase());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_LValueToRValue:
        case CK_NoOp:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_FunctionToPointerDecay:
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
        case CK_ArrayToPointerDecay:
          return expr(x->getSubExpr());
        default: break;
      }
      o["k"] = "cast";
      o["c"] = x->getCastKindName();
      o["e"] = expr(x->getSubExpr());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "opassign";
      o["op"] = BinaryOperator::getOpcodeStr(
                    BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["ct"] = type(x->getComputationResultType());
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "assign" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub";
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "opcall";
      o["op"] = getOperatorSpelling(x->getOperator());
      callee(o, x->getDirectCallee());
      js::Array a;
      for (auto* y : x->arguments()) a.push_back(expr(y));
      o["args"] = std::move(a);
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      if (auto* m = x->getMethodDecl()) {
        o["m"] = m->getNameAsString();
        callee(o, m);
      }
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["b"] = expr(me->getBase());
        o["arrow"] = me->isArrow();
        o["bt"] = type(me->getBase()->getType());
        o["qualified"] = me->hasQualifier();
      }
      js::Array a;
      for (auto* y : x->arguments()) a.push_back(expr(y));
      o["args"] = std::move(a);
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (x->getDirectCallee()) callee(o, x->getDirectCallee());
      else o["f"] = expr(x->getCallee());
      js::Array a;
      for (auto* y : x->arguments()) a.push_back(expr(y));
      o["args"] = std::move(a);
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      if (x->isElidable() && x->getNumArgs() == 1) return expr(x->getArg(0));
      o["k"] = "ctor";
      callee(o, x->getConstructor());
      js::Array a;
      for (auto* y : x->arguments()) a.push_back(expr(y));
      o["args"] = std::move(a);
      o["list"] = x->isListInitialization();
      o["ilist"] = x->isStdInitListInitialization();
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "init";
      js::Array a;
      for (auto* y : x->inits()) a.push_back(expr(y));
      o["args"] = std::move(a);
      return js::Value(std::move(o));
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      js::Array caps;
      for (auto& c : x->captures()) {
        js::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      js::Array ps;
      for (auto* p : x->getCallOperator()->parameters()) ps.push_back(var(p));
      o["params"] = std::move(ps);
      o["rt"] = type(x->getCallOperator()->getReturnType());
      o["body"] = stmt(x->getBody());
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["at"] = type(x->getAllocatedType());
      o["e"] = expr(x->getInitializer());
      if (x->isArray() && x->getArraySize() && *x->getArraySize()) {
        o["n"] = expr(*x->getArraySize());
        o["init"] = x->hasInitializer();
      }
      return js::Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
    o["k"] = "unk";
    o["c"] = e->getStmtClassName();
    return js::Value(std::move(o));
  }

  void global(const VarDecl* v) {
    std::string n = v->getQualifiedNameAsString();
    if (globals.count(n)) return;
    globals.emplace(n, js::Value(nullptr));
    js::Object g;
    g["t"] = type(v->getType());
    g["const"] = v->getType().isConstQualified();
    const VarDecl* def = nullptr;
    const Expr* init = v->getAnyInitializer(def);
    if (init && !init->isValueDependent() &&
        (inRepo(v->getLocation()) || v->getType()->isIntegralOrEnumerationType()))
      g["init"] = expr(init);
    globals.erase(n);
    globals.emplace(n, js::Value(std::move(g)));
  }

  // a static local that always has the value of its initialiser: constant, initialised from constants only
  static bool closed(const Stmt* s) {
    if (!s) return true;
    if (isa<CXXThisExpr>(s) || isa<LambdaExpr>(s)) return false;
    if (auto* x = dyn_cast<DeclRefExpr>(s))
      if (auto* v = dyn_cast<VarDecl>(x->getDecl()))
        if (!v->getType().isConstQualified() || (v->isLocalVarDeclOrParm() && !v->isStaticLocal())) return false;
    for (auto* c : s->children())
      if (!closed(c)) return false;
    return true;
  }

  static bool frozen(const VarDecl* v) {
    QualType t = v->getType();
    bool c = t.isConstQualified() || (t->isPointerType() && t->getPointeeType().isConstQualified());
    return c && v->getInit() && closed(v->getInit());
  }

  js::Value var(const VarDecl* v) {
    js::Object o;
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = line(v->getLocation());
    if (v->getInit() && !isa<ParmVarDecl>(v)) {
      o["init"] = expr(v->getInit());
    }
    o["static"] = v->isStaticLocal();
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      js::Array bs;
      for (auto* b : d->bindings()) {
        js::Object bo;
        bo["id"] = id(b);
        bo["n"] = b->getNameAsString();
        bo["t"] = type(b->getType());
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return js::Value(std::move(o));
  }

  js::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    js::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = expr(e);
    } else if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      js::Array a;
      for (auto* y : x->body()) a.push_back(stmt(y));
      o["s"] = std::move(a);
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      js::Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a);
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      o["range"] = expr(x->getRangeInit());
      o["var"] = var(x->getLoopVariable());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      if (x->getRetValue()) o["e"] = expr(x->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      return stmt(x->getSubStmt());
    } else {
      o["k"] = "unk";
      o["c"] = s->getStmtClassName();
    }
    return js::Value(std::move(o));
  }

  js::Value function(const FunctionDecl* f) {
    js::Object o;
    callee(o, f);
    o["file"] = file(f->getLocation());
    o["line"] = line(f->getLocation());
    js::Array ps;
    for (auto* p : f->parameters()) ps.push_back(var(p));
    o["params"] = std::move(ps);
    o["rt"] = type(f->getReturnType());
    if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      js::Array in;
      for (auto* i : cd->inits()) {
        js::Object io;
        if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else io["deleg"] = true;
        io["e"] = expr(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
      o["ctor"] = true;
    }
    o["body"] = stmt(f->getBody());
    return js::Value(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  explicit V(Ser& s) : S(s) {}
  Ser& S;
  js::Array fns;
  std::set<std::string> done;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitVarDecl(VarDecl* v) {
    if (v->isFileVarDecl() && v->getType().isConstQualified() &&
        !v->getDeclContext()->isDependentContext() &&
        S.inRepo(v->getLocation()))
      S.global(v);
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() ||
        f->isDefaulted() || f->isDeleted())
      return true;
    if (!S.inRepo(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    std::string k = S.key(f);
    if (!done.insert(k).second) return true;
    fns.push_back(S.function(f));
    return true;
  }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    Ser s(c);
    V v(s);
    v.TraverseDecl(c.getTranslationUnitDecl());
    js::Object o;
    o["functions"] = std::move(v.fns);
    auto mv = [](std::map<std::string, js::Value>& m) {
      js::Object r;
      for (auto& kv : m) r[kv.first] = std::move(kv.second);
      return r;
    };
    o["types"] = mv(s.types);
    o["records"] = mv(s.records);
    o["globals"] = mv(s.globals);
    o["enums"] = mv(s.enums);
    o["errors"] = (int)c.getDiagnostics().hasErrorOccurred();
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << js::Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, char** argv) {
  gPrefix = argv[1];
  gOut = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
