import java.io.ByteArrayInputStream;
import java.io.StringReader;
import java.util.TreeMap;
import java.util.Map;
import javax.xml.parsers.SAXParser;
import javax.xml.parsers.SAXParserFactory;
import org.xml.sax.Attributes;
import org.xml.sax.InputSource;
import org.xml.sax.SAXException;
import org.xml.sax.SAXParseException;
import org.xml.sax.helpers.DefaultHandler;

/** The JDK's own XML parser as reference: canonical form of a document, or why it is none. */
public class XmlRef extends DefaultHandler {
	private final StringBuilder out = new StringBuilder();
	private final StringBuilder text = new StringBuilder();
	private String invalid = null;
	private static SAXParser plain, validating, ns;

	private static SAXParser parser(boolean valid, boolean aware) throws Exception {
		SAXParserFactory f = SAXParserFactory.newInstance();
		f.setNamespaceAware(aware);
		f.setValidating(valid);
		f.setFeature("http://xml.org/sax/features/external-general-entities", false);
		f.setFeature("http://xml.org/sax/features/external-parameter-entities", false);
		return f.newSAXParser();
	}

	private void flush() {
		if (text.length() > 0) {
			out.append('T').append(text).append('\u0001');
			text.setLength(0);
		}
	}

	private boolean aware;

	@Override
	public void startElement(String uri, String local, String name, Attributes a) {
		flush();
		out.append('<').append(aware ? "{" + uri + "}" + local : name).append('\u0001');
		TreeMap<String, String> m = new TreeMap<String, String>();
		for (int i = 0; i < a.getLength(); i++)
			m.put(aware ? "{" + a.getURI(i) + "}" + a.getLocalName(i) : a.getQName(i), a.getValue(i));
		for (Map.Entry<String, String> e : m.entrySet())
			out.append('@').append(e.getKey()).append('=').append(e.getValue()).append('\u0001');
	}

	@Override
	public void endElement(String uri, String local, String name) {
		flush();
		out.append('>');
	}

	@Override
	public void characters(char[] c, int s, int n) {
		text.append(c, s, n);
	}

	@Override
	public void ignorableWhitespace(char[] c, int s, int n) {
		text.append(c, s, n);
	}

	@Override
	public void error(SAXParseException e) throws SAXException {
		if (invalid == null)
			invalid = "line " + e.getLineNumber() + ": " + e.getMessage();
	}

	@Override
	public void fatalError(SAXParseException e) throws SAXException {
		throw e;
	}

	@Override
	public InputSource resolveEntity(String p, String s) {
		return new InputSource(new StringReader(""));
	}

	/** [canonical form, null | validity error] or [null, error] */
	private static String[] run(InputSource src, boolean valid, boolean aware) throws Exception {
		SAXParser p;
		if (aware) {
			if (ns == null)
				ns = parser(false, true);
			p = ns;
		} else if (valid) {
			if (validating == null)
				validating = parser(true, false);
			p = validating;
		} else {
			if (plain == null)
				plain = parser(false, false);
			p = plain;
		}
		XmlRef h = new XmlRef();
		h.aware = aware;
		try {
			p.parse(src, h);
		} catch (SAXException e) {
			p.reset();
			return new String[] { null, String.valueOf(e.getMessage()) };
		} catch (java.io.IOException e) {
			p.reset();
			return new String[] { null, "io: " + e.getMessage() };
		}
		return new String[] { h.out.toString(), h.invalid };
	}

	public static String[] bytes(byte[] data, boolean valid, boolean aware) throws Exception {
		return run(new InputSource(new ByteArrayInputStream(data)), valid, aware);
	}

	public static String[] text(String data, boolean valid, boolean aware) throws Exception {
		return run(new InputSource(new StringReader(data)), valid, aware);
	}
}
