// C24: what an OSCQuery server publishes about a tree, and what a client makes of it.
#include "oscq.hpp"

VP_SECTION(names)
{
  for (int it = vp::M.n(120, 600); it-- > 0;)
  {
    int id = 0;
    auto m = gen_node(3, id, true);
    vp::M.seen(shape(m));
    generic_device src{"src"}, dst{"dst"};
    apply(m, src.get_root_node());
    auto text = js(oq::json_writer::query_namespace(src.get_root_node()));
    vp::M.at("namespace", text.substr(0, 200));
    auto doc = oq::json_parser::parse(text);
    VCHECK(!doc->HasParseError(), "namespace-json", text.substr(0, 400));
    if (doc->HasParseError())
      continue;
    VCHECK(oq::json_parser::message_type(*doc) == oq::message_type::Namespace, "namespace-message");
    vp::no_throw("namespace-read", [&] { oq::json_parser::parse_namespace(dst.get_root_node(), *doc); });
    compare(src.get_root_node(), dst.get_root_node(), "namespace", "");
    vp::M.sample(text.substr(0, 300));
  }
}

// ---------------------------------------------------------------- incremental messages
// The server side: every notification of the device becomes a message, exactly like a server sends it.
struct publisher
{
  ossia::net::device_base& dev;
  std::vector<std::string> out;
  void created(const node_base& n) { out.push_back(js(oq::json_writer::path_added(n))); }
  void removed(const node_base& n) { out.push_back(js(oq::json_writer::path_removed(n.osc_address()))); }
  void renamed(const node_base& n, std::string old)
  {
    auto a = n.osc_address();
    a.resize(a.find_last_of('/') + 1);
    out.push_back(js(oq::json_writer::path_renamed(a + old, n.osc_address())));
  }
  void attr(const node_base& n, std::string a) { out.push_back(js(oq::json_writer::attributes_changed(n, a))); }
  void param(const parameter_base& p) { attr(p.get_node(), std::string(ossia::net::text_value_type())); }
  explicit publisher(ossia::net::device_base& d) : dev{d}
  {
    d.on_node_created.connect<&publisher::created>(*this);
    d.on_node_removing.connect<&publisher::removed>(*this);
    d.on_node_renamed.connect<&publisher::renamed>(*this);
    d.on_attribute_modified.connect<&publisher::attr>(*this);
    d.on_parameter_created.connect<&publisher::param>(*this);
    d.on_parameter_removing.connect<&publisher::param>(*this);
  }
  ~publisher()
  {
    dev.on_node_created.disconnect<&publisher::created>(*this);
    dev.on_node_removing.disconnect<&publisher::removed>(*this);
    dev.on_node_renamed.disconnect<&publisher::renamed>(*this);
    dev.on_attribute_modified.disconnect<&publisher::attr>(*this);
    dev.on_parameter_created.disconnect<&publisher::param>(*this);
    dev.on_parameter_removing.disconnect<&publisher::param>(*this);
  }
};
// The mirror side, for the messages above. Returns the addresses whose value must be asked for.
static std::vector<parameter_base*> consume(ossia::net::device_base& dst, const std::string& text)
{
  std::vector<parameter_base*> pull;
  auto doc = oq::json_parser::parse(text);
  VCHECK(!doc->HasParseError() && doc->IsObject(), "message-json", text);
  if (doc->HasParseError() || !doc->IsObject())
    return pull;
  auto& root = dst.get_root_node();
  switch (oq::json_parser::message_type(*doc))
  {
    case oq::message_type::PathAdded:
      oq::json_parser::parse_path_added(root, get_string((*doc)["DATA"]), *doc);
      break;
    case oq::message_type::PathRemoved:
      oq::json_parser::parse_path_removed(root, *doc, false);
      break;
    case oq::message_type::PathRenamed:
      oq::json_parser::parse_path_renamed(root, *doc);
      break;
    case oq::message_type::AttributesChanged:
    {
      parameter_base* p{};
      oq::json_parser::parse_attributes_changed(root, *doc, p);
      if (p)
        pull.push_back(p);
      break;
    }
    default:
      VCHECK(false, "message-kind", text);
  }
  return pull;
}
static void answer(ossia::net::device_base& src, parameter_base& p)
{
  auto n = find_node(src.get_root_node(), p.get_node().osc_address());
  if (!n || !n->get_parameter())
    return;
  auto doc = oq::json_parser::parse(js(oq::json_writer::query_attributes(*n, std::vector<std::string>{"VALUE"})));
  VCHECK(!doc->HasParseError() && doc->IsObject() && doc->HasMember("VALUE"), "pull-json");
  oq::json_parser::parse_value(p, (*doc)["VALUE"]);
}
VP_SECTION(edits)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(60, 300); it-- > 0;)
  {
    int id = 0;
    auto m = gen_node(2, id, true);
    vp::M.seen(shape(m));
    generic_device src{"src"}, dst{"dst"};
    apply(m, src.get_root_node());
    oq::json_parser::parse_namespace(dst.get_root_node(), *oq::json_parser::parse(js(oq::json_writer::query_namespace(src.get_root_node()))));
    publisher pub{src};
    for (int step = 0; step < 14; step++)
    {
      std::vector<node_base*> nodes;
      all_nodes(src.get_root_node(), nodes);
      node_base* n = nodes.empty() ? nullptr : r.pick(nodes);
      std::string what;
      parameter_base* p = n ? n->get_parameter() : nullptr;
      switch (r.i(0, 15))
      {
        case 15:
          if (p && p->get_value_type() == val_type::STRING && !p->get_unit())
          {
            what = "ext " + n->osc_address();
            set_extended_type(*n, r.pick(std::vector<std::string>{ossia::generic_buffer_type(), ossia::filesystem_path_type(), ossia::url_type()}));
          }
          break;
        case 0:
        {
          auto& parent = n && r.b() ? *n : src.get_root_node();
          what = "add";
          int d = r.i(0, 1);
          auto k = gen_node(d, id, false);
          std::function<void(mnode&)> fix = [&](mnode& q) {
            if (q.def && !pullable(mv::mk(*q.def)))
              q.def = {};
            for (auto& e : q.cld)
              fix(e);
          };
          fix(k);
          auto c = parent.create_child(k.name);
          apply(k, *c);
          break;
        }
        case 1:
          if (n)
          {
            what = "remove " + n->osc_address();
            n->get_parent()->remove_child(*n);
          }
          break;
        case 2:
          if (n)
          {
            what = "rename " + n->osc_address();
            n->set_name(name(id++));
          }
          break;
        case 3:
          if (p)
          {
            what = "access " + n->osc_address();
            p->set_access(r.pick(std::vector<access_mode>{access_mode::BI, access_mode::GET, access_mode::SET}));
          }
          break;
        case 4:
          if (p)
          {
            what = "clip " + n->osc_address();
            p->set_bounding(r.pick(
                std::vector<bounding_mode>{bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::LOW, bounding_mode::HIGH, bounding_mode::WRAP, bounding_mode::FOLD}));
          }
          break;
        case 5:
          if (p)
          {
            what = "range " + n->osc_address();
            mnode k;
            k.type = p->get_value_type();
            p->set_domain(r.i(0, 4) ? gen_domain(k) : ossia::domain{});
          }
          break;
        case 6:
          if (p && !p->get_unit() && implied_ext(*n))
          {
            what = "unit " + n->osc_address();
            static const auto un = unit_names();
            p->set_unit(ossia::parse_pretty_unit(r.pick(un)));
            if (p->get_unit() == ossia::rgba8_u{})
              p->set_value(ossia::make_vec((float)r.i(0, 255), (float)r.i(0, 255), (float)r.i(0, 255), (float)r.i(0, 255)));
          }
          break;
        case 7:
          if (p && !p->get_unit() && p->get_value_type() != val_type::LIST && implied_ext(*n))
          {
            what = "type " + n->osc_address();
            mnode k;
            static const std::vector<val_type> ts{val_type::IMPULSE, val_type::INT,   val_type::FLOAT, val_type::BOOL, val_type::CHAR,
                                                  val_type::STRING,  val_type::VEC2F, val_type::VEC3F, val_type::VEC4F};
            p->set_value_type(r.pick(ts));
            // the server publishes the value type it has; the range went with the old one
          }
          break;
        case 8:
          if (n)
          {
            what = "descr " + n->osc_address();
            set_description(*n, "d" + text(5));
          }
          break;
        case 9:
          if (n)
          {
            what = "tags " + n->osc_address();
            set_tags(*n, std::vector<std::string>{text(4), "x"});
          }
          break;
        case 10:
          if (n)
          {
            what = "numbers " + n->osc_address();
            set_priority(*n, flt());
            set_refresh_rate(*n, (int)r.i(1, 500));
            set_value_step_size(*n, r.d(0, 10));
            set_instance_bounds(*n, instance_bounds{(int)r.i(0, 3), (int)r.i(3, 9)});
          }
          break;
        case 11:
          if (n)
          {
            what = "app " + n->osc_address();
            set_app_name(*n, "n" + text(3));
            set_app_version(*n, "v" + text(3));
            set_app_creator(*n, "c" + text(3));
          }
          break;
        case 12:
          if (n)
          {
            what = "flags " + n->osc_address();
            set_hidden(*n, r.b());
            set_critical(*n, r.b());
            set_disabled(*n, r.b());
          }
          break;
        case 13:
          if (p && p->get_value_type() != val_type::LIST)
          {
            what = "default " + n->osc_address();
            auto v = gen_value(p->get_value_type());
            if (p->get_unit() == ossia::rgba8_u{})
              v = {mv::v4{1.f, (float)r.i(0, 255), 20.f, 255.f}};
            set_default_value(*n, mv::mk(v));
          }
          break;
        default:
          if (p)
          {
            what = "filter " + n->osc_address();
            p->set_repetition_filter(r.b() ? repetition_filter::ON : repetition_filter::OFF);
          }
          break;
      }
      if (what.empty())
        continue;
      vp::M.at("edits", what);
      auto msgs = std::move(pub.out);
      pub.out.clear();
      for (auto& t : msgs)
      {
        vp::M.sample(t);
        vp::no_throw("edit-read", [&] {
          for (auto q : consume(dst, t))
            answer(src, *q);
        });
      }
      // bring the values over too: they do not travel with these messages
      std::vector<node_base*> dn;
      all_nodes(dst.get_root_node(), dn);
      for (auto d : dn)
        if (auto q = d->get_parameter())
          if (auto sn = find_node(src.get_root_node(), d->osc_address()); sn && sn->get_parameter())
          {
            auto sv = sn->get_parameter()->value();
            if (pullable(sv) && sv.get_type() == q->get_value_type())
            {
              answer(src, *q);
              VCHECK(S(q->value()) == S(sv), "pulled-value", S(sv), S(q->value()), what);
            }
            q->set_value(sv);
          }
      if (!compare(src.get_root_node(), dst.get_root_node(), "edit", what + " "))
        break;
    }
  }
}
// ---------------------------------------------------------------- values on the wire
struct udp_in
{
  int fd{socket(AF_INET, SOCK_DGRAM, 0)};
  int port{};
  udp_in()
  {
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(fd, (sockaddr*)&a, sizeof a);
    socklen_t n = sizeof a;
    getsockname(fd, (sockaddr*)&a, &n);
    port = ntohs(a.sin_port);
    timeval t{10, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
    int big = 4 << 20;
    setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
  }
  ~udp_in() { close(fd); }
  std::string get()
  {
    std::string s(70000, 0);
    auto n = recv(fd, s.data(), s.size(), 0);
    s.resize(n > 0 ? n : 0);
    return s;
  }
};
VP_SECTION(wire)
{
  auto& r = vp::M.r;
  udp_in in;
  oscpack::UdpTransmitSocket out{oscpack::IpEndpointName("127.0.0.1", in.port)};
  for (int it = vp::M.n(300, 1500); it-- > 0;)
  {
    int id = 0;
    mnode m;
    do
      m = gen_node(0, id, false);
    while (!m.has_param);
    int big = r.i(0, 5);
    if (big == 0 && m.type == val_type::STRING)
      m.value = {std::string(r.i(500, 20000), 'q')};
    else if (big == 0 && m.type == val_type::LIST)
    {
      auto l = std::get<mv::list>(m.value.v);
      for (int k = r.i(100, 3000); k > 0; k--)
        l.push_back({k});
      m.value = {l};
    }
    generic_device dst{"dst"};
    auto& root = dst.get_root_node();
    auto nd = root.create_child(m.name);
    if (r.b())
      nd = nd->create_child(name(id++));
    auto p = nd->create_parameter(m.type);
    if (!m.unit.empty())
      p->set_unit(ossia::parse_pretty_unit(m.unit));
    auto v = mv::mk(m.value);
    vp::M.at("wire", vp::str((int)m.type, m.unit, S(m.value).substr(0, 60)));
    auto check = [&](const char* rule, const std::string& msg) {
      if (!VCHECK(msg.size() % 4 == 0 && !msg.empty(), rl(rule, "size"), msg.size()))
        return;
      vp::no_throw(rl(rule, "parse"), [&] {
        oscpack::ReceivedPacket pk(msg.data(), msg.size());
        VCHECK(pk.IsMessage(), rl(rule, "message"));
        oscpack::ReceivedMessage rm(pk);
        VCHECK(rm.AddressPattern() == nd->osc_address(), rl(rule, "address"), std::string(rm.AddressPattern()), nd->osc_address());
        auto got = ossia::net::get_filtered_value(*p, rm);
        auto want = flat(m.value);
        VCHECK(S(got) == S(want), rl(rule, "value"), "type", (int)m.type, "unit", m.unit, S(want).substr(0, 200), S(got).substr(0, 200));
        vp::M.seen(vp::mix((uint64_t)m.type, vp::hash_str(m.unit) ^ (msg.size() / 64)));
      });
    };
    std::string a, b;
    vp::no_throw("wire-write", [&] { a = oq::osc_writer::to_message(*p, v); });
    check("wire", a);
    ossia::net::full_parameter_data fpd;
    fpd.address = nd->osc_address();
    fpd.unit = p->get_unit();
    vp::no_throw("wire-write", [&] { b = oq::osc_writer::to_message(fpd, v); });
    VCHECK(a == b, "wire-data", m.unit);
    vp::no_throw("wire-send", [&] { oq::osc_writer::send_message(*p, v, out); });
    auto g = in.get();
    VCHECK(g == a, "wire-sent", g.size(), a.size());
    vp::M.sample(vp::str(nd->osc_address(), S(m.value).substr(0, 100)));
  }
}

// ---------------------------------------------------------------- queries
namespace
{
struct mock_client
{
  std::map<std::string, parameter_base*> listening;
  std::vector<int> opened;
  int remote_sender_port{};
  void start_listen(std::string s, parameter_base* p)
  {
    if (p)
      listening[s] = p;
  }
  void stop_listen(const std::string& s) { listening.erase(s); }
  template <typename P>
  void open_osc_sender(P&, int port)
  {
    opened.push_back(port);
  }
};
struct mock_proto
{
  using connection_handler = oq::oscquery_server_protocol::connection_handler;
  device_base& dev;
  mock_client client;
  bool known{true};
  std::vector<std::string> calls;
  std::map<std::string, std::string> added;
  device_base& get_device() { return dev; }
  mock_client* find_client(const connection_handler&) { return known ? &client : nullptr; }
  int get_osc_port() { return 4321; }
  void add_node(std::string_view p, ossia::string_map<std::string> m)
  {
    calls.push_back("add:" + std::string(p));
    added.clear();
    for (auto& [k, v] : m)
      added[k] = v;
  }
  void remove_node(std::string_view p, const std::string& n) { calls.push_back("remove:" + std::string(p) + "|" + n); }
  void rename_node(std::string_view p, const std::string& n) { calls.push_back("rename:" + std::string(p) + "|" + n); }
};
}
static std::string enc(const std::string& s, bool all = false)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (!all && (isalnum(c) || c == '_' || c == '.' || c == '-' || c == '/' || c == '~'))
      o += c;
    else if (c == ' ' && vp::M.r.b())
      o += '+';
    else
    {
      char b[8];
      snprintf(b, sizeof b, vp::M.r.b() ? "%%%02X" : "%%%02x", c);
      o += b;
    }
  }
  return o;
}
static std::string ask(mock_proto& p, const std::string& q)
{
  mock_proto::connection_handler h;
  std::string res;
  vp::no_throw("query-answer", [&] {
    auto f = oq::get_query_answerer{}(p, h);
    net::server_reply rep = oq::query_parser::parse_http_request(q, f);
    res = rep.data;
  });
  return res;
}
VP_SECTION(queries)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(40, 200); it-- > 0;)
  {
    int id = 0;
    auto m = gen_node(3, id, true);
    vp::M.seen(shape(m));
    generic_device src{"src"};
    apply(m, src.get_root_node());
    mock_proto proto{src};
    std::vector<node_base*> nodes;
    all_nodes(src.get_root_node(), nodes);
    // the whole and every part of the namespace
    {
      generic_device dst{"dst"};
      auto doc = oq::json_parser::parse(ask(proto, "/"));
      VCHECK(!doc->HasParseError(), "query-root-json");
      oq::json_parser::parse_namespace(dst.get_root_node(), *doc);
      compare(src.get_root_node(), dst.get_root_node(), "query-root", "");
    }
    if (nodes.empty())
      continue;
    for (int k = 0; k < 4; k++)
    {
      auto n = r.pick(nodes);
      auto addr = n->osc_address();
      vp::M.at("query", addr);
      generic_device dst{"dst"};
      net::create_node(dst.get_root_node(), addr);
      auto doc = oq::json_parser::parse(ask(proto, enc(addr)));
      if (!VCHECK(!doc->HasParseError() && doc->IsObject(), "query-node-json", addr))
        continue;
      oq::json_parser::parse_namespace(dst.get_root_node(), *doc);
      compare(*n, *net::find_node(dst.get_root_node(), addr), "query-node", "");
      // one or more attributes are what the namespace says
      std::vector<std::string> at;
      for (auto& a : {"FULL_PATH", "ACCESS", "CLIPMODE", "TAGS", "DESCRIPTION", "CRITICAL", "HIDDEN", "DISABLED", "REFRESH_RATE", "PRIORITY", "STEP_SIZE",
                      "INSTANCE_BOUNDS", "APP_NAME", "APP_VERSION", "APP_CREATOR", "RANGE", "REPETITION_FILTER"})
        if (doc->HasMember(a) && r.i(0, 2))
          at.push_back(a);
      if (at.empty())
        continue;
      std::shuffle(at.begin(), at.end(), r);
      std::string q = enc(addr) + "?";
      for (size_t i = 0; i < at.size(); i++)
        q += (i ? "&" : "") + enc(at[i], r.i(0, 4) == 0);
      auto ans = oq::json_parser::parse(ask(proto, q));
      if (!VCHECK(!ans->HasParseError() && ans->IsObject(), "query-attributes-json", q))
        continue;
      VCHECK(ans->MemberCount() == at.size(), "query-attributes-count", q, ans->MemberCount(), at.size());
      for (auto& a : at)
      {
        if (!VCHECK(ans->HasMember(a.c_str()), "query-attributes-missing", q, a))
          continue;
        VCHECK((*ans)[a.c_str()] == (*doc)[a.c_str()] || (a == "STEP_SIZE" || a == "PRIORITY"), rl("query-attribute", a), q);
      }
      vp::M.sample(q);
      // requests to change the tree reach the protocol, decoded
      auto nm = name(id++) + text(3);
      nm.erase(std::remove(nm.begin(), nm.end(), '\0'), nm.end());
      proto.calls.clear();
      switch (r.i(0, 6))
      {
        case 0:
          ask(proto, enc(addr) + "?REMOVE_NODE=" + enc(nm));
          VCHECK(proto.calls == (std::vector<std::string>{"remove:" + addr + "|" + nm}), "query-remove", nm, proto.calls.size());
          break;
        case 1:
          ask(proto, enc(addr) + "?RENAME_NODE=" + enc(nm));
          VCHECK(proto.calls == (std::vector<std::string>{"rename:" + addr + "|" + nm}), "query-rename", nm, proto.calls.size());
          break;
        case 2:
        {
          auto d = "x" + text(6);
          ask(proto, enc(addr) + "?ADD_NODE=" + enc(nm) + "&DESCRIPTION=" + enc(d) + "&TYPE=f");
          VCHECK(proto.calls == (std::vector<std::string>{"add:" + addr}), "query-add", nm);
          VCHECK(proto.added["ADD_NODE"] == nm && proto.added["DESCRIPTION"] == d && proto.added["TYPE"] == "f", "query-add-arguments", nm, d,
                 proto.added["DESCRIPTION"], proto.added["TYPE"]);
          break;
        }
        case 3:
          ask(proto, enc(addr) + "?LISTEN=TRUE");
          VCHECK(proto.client.listening.count(addr) == (n->get_parameter() != nullptr), "query-listen", addr);
          if (n->get_parameter())
            VCHECK(proto.client.listening[addr] == n->get_parameter(), "query-listen-parameter", addr);
          ask(proto, enc(addr) + "?LISTEN=FALSE");
          VCHECK(proto.client.listening.empty(), "query-ignore", addr);
          break;
        case 4:
        {
          auto t = ask(proto, enc(addr) + "?HTML");
          VCHECK(t.find("<html") != std::string::npos, "query-html", t.substr(0, 60));
          std::vector<node_base*> sub{n};
          all_nodes(*n, sub);
          for (auto s : sub)
            if (auto q = s->get_parameter())
            {
              auto pos = t.find("<b>" + s->osc_address() + "</b>");
              if (!VCHECK(pos != std::string::npos, "query-html-node", s->osc_address()))
                continue;
              auto para = t.substr(pos, t.find("\n<p>", pos) - pos);
              auto dom = q->get_domain();
              if (dom.get_min().valid())
                VCHECK(para.find(fmt::format("<b>Min</b>: {}", dom.get_min())) != std::string::npos, "query-html-min", para.substr(0, 200));
              if (dom.get_max().valid())
                VCHECK(para.find(fmt::format("<b>Max</b>: {}", dom.get_max())) != std::string::npos, "query-html-max", para.substr(0, 200));
              if (q->get_unit())
                VCHECK(para.find(vp::str("<b>Unit</b>: ") + std::string(ossia::get_pretty_unit_text(q->get_unit()))) != std::string::npos, "query-html-unit", para.substr(0, 200));
              if (q->get_value_type() == val_type::INT)
                VCHECK(para.find(std::to_string(q->value().get<int>())) != std::string::npos, "query-html-value", para.substr(0, 200));
            }
          break;
        }
        case 5:
        {
          auto info = oq::json_parser::parse_host_info(*oq::json_parser::parse(ask(proto, r.b() ? "/?HOST_INFO" : enc(addr) + "?HOST_INFO")));
          VCHECK(info.osc_port && *info.osc_port == 4321, "host-info-port");
          VCHECK(info.osc_transport && *info.osc_transport == oq::host_info::UDP, "host-info-transport");
          for (auto e : {"ACCESS", "VALUE", "RANGE", "TAGS", "CLIPMODE", "UNIT", "CRITICAL", "DESCRIPTION", "OSC_STREAMING", "LISTEN", "ECHO", "PATH_ADDED",
                         "PATH_REMOVED", "PATH_RENAMED"})
          {
            auto x = info.extensions.find(std::string(e));
            VCHECK(x != info.extensions.end() && x->second, rl("host-info", e));
          }
          break;
        }
        default:
        {
          // the same through the JSON messages a client sends
          mock_proto::connection_handler h;
          auto send = [&](const rapidjson::StringBuffer& b) {
            vp::no_throw("command", [&] { oq::json_query_answerer{}(proto, h, *oq::json_parser::parse(js(b))); });
          };
          send(oq::json_writer::listen(addr));
          VCHECK(proto.client.listening.count(addr) == (n->get_parameter() != nullptr), "command-listen", addr);
          send(oq::json_writer::ignore(addr));
          VCHECK(proto.client.listening.empty(), "command-ignore", addr);
          int a = r.i(1, 65535), b = r.i(0, 65535);
          proto.client.opened.clear();
          proto.client.remote_sender_port = 0;
          send(oq::json_writer::start_osc_streaming(a, b));
          VCHECK(proto.client.opened == std::vector<int>{a} && proto.client.remote_sender_port == b, "command-streaming", a, b, proto.client.remote_sender_port);
          // values sent as JSON
          if (auto p = n->get_parameter(); p && p->get_access() != access_mode::GET && n->get_name().find_first_of("*?[]{}") == std::string::npos)
          {
            p->set_bounding(bounding_mode::FREE);
            p->set_repetition_filter(repetition_filter::OFF);
            mv::val v = p->get_value_type() == val_type::LIST ? mv::val{mv::list{{1}, {2.5f}, {std::string("x")}}} : gen_value(p->get_value_type());
            // (the default value of a list is read with the type tag of its value)
            if (!(p->get_unit() == ossia::rgba8_u{}) && p->get_value_type() != val_type::BOOL
                && !(p->get_value_type() == val_type::LIST && get_default_value(*n)))
            {
              rapidjson::StringBuffer sb;
              ossia::json_writer wr{sb};
              oq::detail::json_writer_impl wi{wr};
              wr.StartObject();
              write_json_key(wr, addr);
              wi.writeValue(mv::mk(v), p->get_unit());
              wr.EndObject();
              vp::M.at("command-value", js(sb));
              send(sb);
              VCHECK(S(p->value()) == S(v), "command-value", js(sb), S(p->value()), S(v));
            }
          }
        }
      }
    }
    // what is not there or not understood is refused, and changes nothing
    mock_proto::connection_handler h;
    proto.calls.clear();
    auto before = js(oq::json_writer::query_namespace(src.get_root_node()));
    for (auto q : {"/does/not/exist", "/does/not/exist?VALUE", "/?NO_SUCH_ATTRIBUTE", "/?LISTEN=maybe"})
      VCHECK(vp::throws([&] { oq::query_parser::parse_http_request(q, oq::get_query_answerer{}(proto, h)); }), "query-refused", q);
    proto.known = false;
    VCHECK(vp::throws([&] { oq::query_parser::parse_http_request("/?LISTEN=TRUE", oq::get_query_answerer{}(proto, h)); }), "query-unknown-client");
    VCHECK(proto.calls.empty() && before == js(oq::json_writer::query_namespace(src.get_root_node())), "query-changes-nothing");
  }
}
// ---------------------------------------------------------------- whatever a peer sends
static const std::vector<std::string>& words()
{
  static const std::vector<std::string> w{
      "FULL_PATH", "TYPE", "CONTENTS", "VALUE", "RANGE", "CLIPMODE", "ACCESS", "DESCRIPTION", "TAGS", "UNIT", "REFRESH_RATE", "PRIORITY", "STEP_SIZE",
      "INSTANCE_BOUNDS", "CRITICAL", "HIDDEN", "DISABLED", "EXTENDED_TYPE", "REPETITION_FILTER", "DEFAULT_VALUE", "APP_NAME", "COMMAND", "DATA", "MIN", "MAX",
      "VALS", "OLD", "NEW", "NAME", "OSC_PORT", "LISTEN", "IGNORE", "START_OSC_STREAMING", "LOCAL_SERVER_PORT", "PATH_ADDED", "PATH_REMOVED", "PATH_RENAMED",
      "ATTRIBUTES_CHANGED", "EXTENSIONS", "color.rgba8", "float.array", "url", "list", "r", "ff", "fff", "[f[f]]", "T", "f", "i", "s", "I", "N", "[", "]", "both",
      "wrap", "/", "", "/a", "a/b", "//", "\xff\x80", "#ffffffff", "#\x80\x81\xffgggggg"};
  return w;
}
static void random_json(rapidjson::Value& v, rapidjson::Document& d, int depth)
{
  auto& r = vp::M.r;
  auto& al = d.GetAllocator();
  switch (r.i(0, depth > 0 ? 9 : 6))
  {
    case 0:
      v.SetNull();
      break;
    case 1:
      v.SetBool(r.b());
      break;
    case 2:
      v.SetInt(r.i(-3, 300));
      break;
    case 3:
      v.SetDouble(r.d(-1e9, 1e9));
      break;
    case 4:
    case 5:
    {
      auto& w = r.pick(words());
      v.SetString(w.data(), w.size(), al);
      break;
    }
    case 6:
      v.SetUint64(r.next());
      break;
    case 7:
    case 8:
    {
      v.SetArray();
      for (int i = r.i(0, 4); i > 0; i--)
      {
        rapidjson::Value e;
        random_json(e, d, depth - 1);
        v.PushBack(e, al);
      }
      break;
    }
    default:
    {
      v.SetObject();
      for (int i = r.i(0, 4); i > 0; i--)
      {
        rapidjson::Value e, k;
        random_json(e, d, depth - 1);
        auto& w = r.pick(words());
        k.SetString(w.data(), w.size(), al);
        v.AddMember(k, e, al);
      }
    }
  }
}
static void all_values(rapidjson::Value& v, std::vector<rapidjson::Value*>& out)
{
  out.push_back(&v);
  if (v.IsObject())
    for (auto& m : v.GetObject())
      all_values(m.value, out);
  else if (v.IsArray())
    for (auto& e : v.GetArray())
      all_values(e, out);
}
static void mutate(rapidjson::Document& d)
{
  auto& r = vp::M.r;
  auto& al = d.GetAllocator();
  for (int k = r.i(1, 4); k > 0; k--)
  {
    std::vector<rapidjson::Value*> all;
    all_values(d, all);
    auto v = r.pick(all);
    switch (r.i(0, 5))
    {
      case 0:
        random_json(*v, d, 3);
        break;
      case 1:
        if (v->IsObject() && v->MemberCount())
          v->RemoveMember(v->MemberBegin() + r.i(0, v->MemberCount() - 1));
        else if (v->IsArray() && v->Size())
          v->Erase(v->Begin() + r.i(0, v->Size() - 1));
        break;
      case 2:
        if (v->IsObject())
        {
          rapidjson::Value e, n;
          random_json(e, d, 2);
          auto& w = r.pick(words());
          n.SetString(w.data(), w.size(), al);
          v->AddMember(n, e, al);
        }
        else if (v->IsArray())
        {
          rapidjson::Value e;
          random_json(e, d, 2);
          v->PushBack(e, al);
        }
        break;
      case 3:
        if (v->IsString())
        {
          std::string s(v->GetString(), v->GetStringLength());
          if (r.b() && !s.empty())
            s.resize(r.i(0, s.size() - 1));
          else
            s.insert(r.i(0, s.size()), r.pick(words()));
          v->SetString(s.data(), s.size(), al);
        }
        break;
      case 4:
        if (v->IsObject() && v->MemberCount())
        {
          auto& w = r.pick(words());
          (v->MemberBegin() + r.i(0, v->MemberCount() - 1))->name.SetString(w.data(), w.size(), al);
        }
        break;
      default:
      {
        auto w = r.pick(all);
        rapidjson::Value c(*w, al);
        *v = c;
      }
    }
  }
}
static std::string as_text(const rapidjson::Document& d)
{
  rapidjson::StringBuffer b;
  ossia::json_writer w{b};
  d.Accept(w);
  return js(b);
}
// what a mirror does with a message
static void receive(generic_device& dst, const std::string& text)
{
  auto doc = oq::json_parser::parse(text);
  if (doc->HasParseError())
    return;
  auto& root = dst.get_root_node();
  auto& d = *doc;
  if (d.IsArray())
  {
    oq::json_parser::parse_parameter_value(root, d, dst);
    return;
  }
  switch (oq::json_parser::message_type(d))
  {
    case oq::message_type::HostInfo:
      oq::json_parser::parse_host_info(d);
      break;
    case oq::message_type::Device:
      oq::json_parser::get_port(d);
      break;
    case oq::message_type::Namespace:
      oq::json_parser::parse_namespace(root, d);
      break;
    case oq::message_type::PathAdded:
      oq::json_parser::parse_path_added(root, get_string(d["DATA"]), d);
      break;
    case oq::message_type::PathRemoved:
      oq::json_parser::parse_path_removed(root, d, vp::M.r.b());
      break;
    case oq::message_type::PathRenamed:
      oq::json_parser::parse_path_renamed(root, d);
      break;
    case oq::message_type::AttributesChanged:
    {
      parameter_base* p{};
      oq::json_parser::parse_attributes_changed(root, d, p);
      if (p)
        VCHECK(net::find_node(root, p->get_node().osc_address()) == &p->get_node(), "hostile-request");
      break;
    }
    default:
      oq::json_parser::parse_parameter_value(root, d, dst);
  }
}
static void sound(const node_base& n)
{
  std::set<std::string> names;
  for (auto& c : n.children())
  {
    VCHECK(c->get_parent() == &n, "hostile-parent", c->get_name());
    VCHECK(names.insert(c->get_name()).second, "hostile-names", c->get_name());
    if (auto p = c->get_parameter())
    {
      VCHECK(&p->get_node() == c.get(), "hostile-parameter");
      (void)attrs(*c);
    }
    sound(*c);
  }
}
VP_SECTION(hostile)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(60, 400); it-- > 0;)
  {
    int id = 0;
    auto m = gen_node(2, id, true);
    vp::M.seen(shape(m));
    generic_device src{"src"}, dst{"dst"};
    apply(m, src.get_root_node());
    auto whole = js(oq::json_writer::query_namespace(src.get_root_node()));
    oq::json_parser::parse_namespace(dst.get_root_node(), *oq::json_parser::parse(whole));
    std::vector<node_base*> nodes;
    all_nodes(src.get_root_node(), nodes);
    std::vector<std::string> good{whole, js(oq::json_writer::query_host_info("x", 1234)), js(oq::json_writer::start_osc_streaming(4, 5)),
                                  js(oq::json_writer::device_info(44))};
    for (auto n : nodes)
    {
      good.push_back(js(oq::json_writer::query_namespace(*n)));
      good.push_back(js(oq::json_writer::path_added(*n)));
      good.push_back(js(oq::json_writer::path_removed(n->osc_address())));
      good.push_back(js(oq::json_writer::path_renamed(n->osc_address(), "/new" + n->get_name())));
      good.push_back(js(oq::json_writer::listen(n->osc_address())));
      good.push_back(js(oq::json_writer::ignore(n->osc_address())));
      for (auto& [k, v] : oq::ossia_to_oscquery_key())
        try
        {
          good.push_back(js(oq::json_writer::attributes_changed(*n, k)));
        }
        catch (const std::exception&)
        {
          // the node has no such attribute
        }
    }
    mock_proto proto{dst};
    for (int k = 0; k < 60; k++)
    {
      std::string t;
      if (r.i(0, 9) == 0)
      {
        // not JSON any more
        t = r.pick(good);
        for (int q = r.i(1, 5); q > 0 && !t.empty(); q--)
          if (r.b())
            t[r.i(0, t.size() - 1)] = (char)r.i(1, 255);
          else
            t.erase(r.i(0, t.size() - 1), r.i(1, 9));
      }
      else
      {
        auto d = oq::json_parser::parse(r.pick(good));
        mutate(*d);
        t = as_text(*d);
      }
      vp::M.at("hostile", t.substr(0, 700));
      bool refused = false;
      // refusing it with an exception is fine: the protocols log these
      try
      {
        if (r.i(0, 2))
          receive(dst, t);
        else
        {
          mock_proto::connection_handler h;
          auto d = oq::json_parser::parse(t);
          if (!d->HasParseError())
            oq::json_query_answerer{}(proto, h, *d);
        }
      }
      catch (const std::exception&)
      {
        refused = true;
      }
      vp::M.seen(vp::mix(refused, vp::hash_str(t.substr(0, 40))));
      proto.client.listening.clear();
      sound(dst.get_root_node());
      vp::no_throw("hostile-publish", [&] {
        auto b = js(oq::json_writer::query_namespace(dst.get_root_node()));
        VCHECK(!oq::json_parser::parse(b)->HasParseError() || b.find_first_of("\x80\xff") != std::string::npos, "hostile-publish-json", b.substr(0, 300));
      });
      // a request line
      std::string q = r.b() ? "/" : "/" + r.pick(words());
      for (int i = r.i(0, 4); i > 0; i--)
        q += r.pick(std::vector<std::string>{"?", "&", "=", "%", "%4", "%zz", "%00", "+", "VALUE", "RANGE", "LISTEN", "HTML", "TRUE", "ADD_NODE", "UNIT", "*",
                                             "[", "{a", "\\", "(", "/"});
      try
      {
        mock_proto::connection_handler h;
        oq::query_parser::parse_http_request(q, oq::get_query_answerer{}(proto, h));
      }
      catch (const std::exception&)
      {
      }
      proto.client.listening.clear();
    }
  }
}
// ---------------------------------------------------------------- the attributes of a node added by a query
VP_SECTION(arguments)
{
  auto& r = vp::M.r;
  using P = oq::query_parser;
  for (int it = vp::M.n(300, 1500); it-- > 0;)
  {
    parameter_data d;
    auto tf = [&](bool b) { return std::string(b ? r.pick(std::vector<std::string>{"true", "True", "t", "TRUE"}) : r.pick(std::vector<std::string>{"false", "F", "FALSE"})); };
    int a = r.i(0, 4);
    P::parse(access_mode_attribute{}, std::to_string(a), d);
    VCHECK(a >= 1 && a <= 3 ? d.access && *d.access == (a == 1 ? access_mode::GET : a == 2 ? access_mode::SET : access_mode::BI) : !d.access, "argument-access", a);
    int c = r.i(0, 6);
    static const char* clip[]{"none", "both", "low", "high", "wrap", "fold", "?"};
    static const bounding_mode modes[]{bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::LOW, bounding_mode::HIGH, bounding_mode::WRAP, bounding_mode::FOLD};
    P::parse(bounding_mode_attribute{}, clip[c], d);
    VCHECK(c < 6 ? d.bounding && *d.bounding == modes[c] : !d.bounding, "argument-clip", clip[c]);
    bool b = r.b(), b2 = r.b(), b3 = r.b(), b4 = r.b();
    P::parse(repetition_filter_attribute{}, tf(b), d);
    VCHECK(d.rep_filter && (*d.rep_filter == repetition_filter::ON) == b, "argument-filter", b);
    P::parse(critical_attribute{}, tf(b2), d);
    P::parse(hidden_attribute{}, tf(b3), d);
    P::parse(disabled_attribute{}, tf(b4), d);
    VCHECK(d.critical && *d.critical == b2, "argument-critical", b2);
    VCHECK((bool)get_hidden(d.extended) == b3, "argument-hidden", b3);
    VCHECK(d.disabled && *d.disabled == b4, "argument-disabled", b4);
    int rate = r.i(1, 1000);
    float prio = (float)r.i(-50, 50) / 4.f;
    double step = r.i(-50, 50) / 8.;
    P::parse(refresh_rate_attribute{}, std::to_string(rate), d);
    P::parse(priority_attribute{}, std::to_string(prio), d);
    P::parse(value_step_size_attribute{}, std::to_string(step), d);
    auto gr = get_refresh_rate(d.extended);
    auto gp = get_priority(d.extended);
    auto gs = get_value_step_size(d.extended);
    VCHECK(gr && *gr == rate, "argument-rate", rate);
    VCHECK(gp && *gp == prio, "argument-priority", prio);
    VCHECK(gs && *gs == step, "argument-step", step);
    auto t1 = "d" + text(6), t2 = "n" + text(3), t3 = "v" + text(3), t4 = "c" + text(3), t5 = "e" + text(3);
    P::parse(description_attribute{}, t1, d);
    P::parse(app_name_attribute{}, t2, d);
    P::parse(app_version_attribute{}, t3, d);
    P::parse(app_creator_attribute{}, t4, d);
    P::parse(extended_type_attribute{}, t5, d);
    auto g1 = get_description(d.extended);
    auto g2 = get_app_name(d.extended);
    auto g3 = get_app_version(d.extended);
    auto g4 = get_app_creator(d.extended);
    auto g5 = get_optional_attribute<extended_type>(d.extended, text_extended_type());
    VCHECK(g1 && *g1 == t1 && g2 && *g2 == t2 && g3 && *g3 == t3 && g4 && *g4 == t4 && g5 && *g5 == t5, "argument-text", t1, t2, t3, t4, t5);
    static const auto un = unit_names();
    auto u = r.pick(un);
    P::parse(unit_attribute{}, u, d);
    VCHECK(ossia::get_pretty_unit_text(d.unit) == u, "argument-unit", u);
    static const std::vector<std::pair<std::string, val_type>> tags{{"i", val_type::INT},     {"f", val_type::FLOAT},  {"T", val_type::BOOL},   {"F", val_type::BOOL},
                                                                    {"s", val_type::STRING},  {"c", val_type::CHAR},   {"I", val_type::IMPULSE}, {"ff", val_type::VEC2F},
                                                                    {"fff", val_type::VEC3F}, {"ffff", val_type::VEC4F}, {"if", val_type::LIST},  {"d", val_type::FLOAT},
                                                                    {"h", val_type::INT},     {"[ff]s", val_type::LIST}};
    auto& tt = r.pick(tags);
    P::parse(oq::detail::typetag_attribute{}, tt.first, d);
    VCHECK(ossia::underlying_type(d.type) == tt.second, "argument-type", tt.first);
    vp::M.seen(vp::mix(vp::mix(a, c), vp::hash_str(u + tt.first)));
    // values that mean nothing leave everything as it is
    parameter_data e;
    vp::no_throw("argument-bad", [&] {
      for (auto bad : {"", "x", "-", "4x"})
      {
        P::parse(access_mode_attribute{}, bad, e);
        P::parse(bounding_mode_attribute{}, bad, e);
        P::parse(repetition_filter_attribute{}, bad, e);
        P::parse(refresh_rate_attribute{}, bad, e);
        P::parse(priority_attribute{}, bad, e);
        P::parse(value_step_size_attribute{}, bad, e);
        P::parse(critical_attribute{}, bad, e);
        P::parse(hidden_attribute{}, bad, e);
        P::parse(disabled_attribute{}, bad, e);
        P::parse(unit_attribute{}, bad, e);
      }
    });
    VCHECK(!e.access && !e.bounding && !e.rep_filter && !e.critical && !e.disabled && !e.unit && !get_refresh_rate(e.extended) && !get_priority(e.extended)
               && !get_value_step_size(e.extended),
           "argument-bad-kept");
    // complete host information
    oq::host_info h;
    int ip = r.i(0, 255), p1 = r.i(1, 65535), p2 = r.i(1, 65535);
    bool tcp = r.b(), ext = r.b();
    auto s1 = vp::str("10.0.0.", ip);
    auto s2 = vp::str("10.0.1.", ip);
    auto doc = oq::json_parser::parse("{\"NAME\":\"x\",\"OSC_IP\":\"" + s1 + "\",\"OSC_PORT\":" + std::to_string(p1) + ",\"OSC_TRANSPORT\":\"" + (tcp ? "TCP" : "UDP")
                                      + "\",\"WS_IP\":\"" + s2 + "\",\"WS_PORT\":" + std::to_string(p2) + ",\"EXTENSIONS\":{\"FOO\":" + (ext ? "true" : "false") + "}}");
    VCHECK(oq::json_parser::message_type(*doc) == oq::message_type::HostInfo, "host-info-kind");
    h = oq::json_parser::parse_host_info(*doc);
    VCHECK(h.osc_ip == s1 && h.ws_ip == s2 && h.osc_port == p1 && h.ws_port == p2 && h.osc_transport == (tcp ? oq::host_info::TCP : oq::host_info::UDP), "host-info-read", s1, p1, p2);
    VCHECK(h.extensions.size() == 1 && h.extensions["FOO"] == ext, "host-info-extension");
    VCHECK(oq::json_parser::get_port(*oq::json_parser::parse(js(oq::json_writer::device_info(p1)))) == p1, "device-port");
  }
}
VP_SECTION(batches)
{
  auto& r = vp::M.r;
  for (int it = vp::M.n(40, 200); it-- > 0;)
  {
    int id = 0;
    auto m = gen_node(2, id, true);
    vp::M.seen(shape(m));
    generic_device src{"src"};
    apply(m, src.get_root_node());
    std::vector<node_base*> nodes;
    all_nodes(src.get_root_node(), nodes);
    std::shuffle(nodes.begin(), nodes.end(), r);
    nodes.resize(std::min<size_t>(nodes.size(), r.i(0, 5)));
    std::vector<const node_base*> cn(nodes.begin(), nodes.end());
    std::vector<std::string> paths;
    for (auto n : nodes)
      paths.push_back(n->osc_address());
    auto same = [&](const char* rule, const std::string& all, const std::vector<std::string>& one) {
      auto d = oq::json_parser::parse(all);
      if (!VCHECK(!d->HasParseError() && d->IsArray(), rl(rule, "json"), all.substr(0, 300)))
        return;
      if (!VCHECK(d->Size() == one.size(), rl(rule, "count"), d->Size(), one.size()))
        return;
      for (size_t i = 0; i < one.size(); i++)
        VCHECK((*d)[i] == *oq::json_parser::parse(one[i]), rl(rule, "element"), one[i]);
    };
    std::vector<std::string> a, c, x, t;
    std::vector<std::pair<const node_base*, std::vector<ossia::string_view>>> at;
    for (auto n : nodes)
    {
      a.push_back(js(oq::json_writer::path_added(*n)));
      c.push_back(js(oq::json_writer::path_changed(*n)));
      x.push_back(js(oq::json_writer::path_removed(n->osc_address())));
      std::vector<ossia::string_view> keys;
      for (auto k : {text_description(), text_tags(), text_priority()})
        if (r.b())
          keys.push_back(k);
      t.push_back(js(oq::json_writer::attributes_changed(*n, keys)));
      at.push_back({n, keys});
    }
    same("batch-added", js(oq::json_writer::paths_added(cn)), a);
    same("batch-changed", js(oq::json_writer::paths_changed(cn)), c);
    same("batch-removed", js(oq::json_writer::paths_removed(paths)), x);
    same("batch-attributes", js(oq::json_writer::attributes_changed_array(at)), t);
    // removal as a mirror does it: the node stays, unavailable, until it is added again
    generic_device dst{"dst"};
    oq::json_parser::parse_namespace(dst.get_root_node(), *oq::json_parser::parse(js(oq::json_writer::query_namespace(src.get_root_node()))));
    for (auto n : nodes)
    {
      auto d = net::find_node(dst.get_root_node(), n->osc_address());
      if (!VCHECK(d, "zombie-node"))
        continue;
      VCHECK(!get_zombie(*d), "zombie-before");
      oq::json_parser::parse_path_removed(dst.get_root_node(), *oq::json_parser::parse(js(oq::json_writer::path_removed(n->osc_address()))), true);
      VCHECK(net::find_node(dst.get_root_node(), n->osc_address()) == d && get_zombie(*d), "zombie-set", n->osc_address());
      set_description(*n, "again" + text(3));
      auto doc = oq::json_parser::parse(js(oq::json_writer::query_namespace(*n)));
      oq::json_parser::parse_path_added(dst.get_root_node(), n->osc_address(), *doc);
      VCHECK(net::find_node(dst.get_root_node(), n->osc_address()) == d && !get_zombie(*d), "zombie-unset", n->osc_address());
      compare(*n, *d, "zombie", "");
    }
  }
}
VP_MAIN
