#!/bin/sh
# Jython 2.7 as /opt/vp/runner/jython.sh starts it, but with the full JIT and a
# private temporary directory; the code under test is imported from /repo.
J=/usr/share/java
export LC_ALL=C.UTF-8 TZ=UTC
export JYTHONPATH="/opt/vp/jython/site:/opt/vp/runner"
unset JAVA_TOOL_OPTIONS CLASSPATH
exec /usr/bin/java -Xss16m -Xmx"${MC_XMX:-1500m}" -XX:+UseSerialGC -XX:CICompilerCount=2 -Xshare:auto \
	-Djava.net.preferIPv4Stack=true -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true \
	-cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar:/opt/vp/jython${MC_CP:+:$MC_CP} \
	org.python.util.jython -B "$@"
