"""Edits of /repo that change no behaviour; the checks have to stay quiet on each (see tools/tryrefactors.py)."""
EV="lib/src/evaluator.rs"; VA="lib/src/value.rs"; LX="lib/src/lexer.rs"; NA="lib/src/native.rs"; PA="lib/src/parser.rs"
RE="lib/src/http/response.rs"; RQ="lib/src/http/request.rs"; ST="lib/src/http/stream.rs"; CL="lib/src/http/client.rs"; URL="lib/src/http/url.rs"
CO="lib/src/http/content.rs"; CX="lib/src/context.rs"; WR="lib/src/writer.rs"; SA="lib/src/stat.rs"; CM="cmd/src/command.rs"; MN="cmd/src/main.rs"
LOOP_OLD='''                            while continuous.load(Ordering::Relaxed) && number < maximun {
                                let result = eval_block(test.as_ref(), &mut context);
                                if let Err(ref error) = result {
                                    println!("{}", error);
                                }
                                let records = context.records();
                                records.iter().for_each(|record| println!("{}", record));
                                if let Some(ref mut writer) = writer {
                                    writer.write(&records, &name, thread, number)
                                }
                                stat.then(|| sender.send(records));
                                if result.is_err() {
                                    break;
                                }
                                number += 1;
                            }'''
TIMER_OLD='''                        std::thread::sleep(duration);
                        continuous.store(false, Ordering::Relaxed)'''
STAT_OLD='''            for records in receiver {
                for record in records.iter() {
                    stats.add(&record.name, record.time.total.as_millis());
                }
            }
            print!("{}", stats);'''
REFACTORS=[
dict(id="run-loop-for-locked",edits=[(CM,LOOP_OLD,'''                            for number in 0..maximun {
                                if !continuous.load(Ordering::SeqCst) {
                                    break;
                                }
                                let failed = match eval_block(test.as_ref(), &mut context) {
                                    Ok(_) => false,
                                    Err(error) => {
                                        let mut out = std::io::stdout().lock();
                                        let _ = writeln!(out, "{}", error);
                                        true
                                    }
                                };
                                let records = context.records();
                                for record in &records {
                                    let mut out = std::io::stdout().lock();
                                    let _ = writeln!(out, "{}", record);
                                }
                                if let Some(writer) = writer.as_mut() {
                                    writer.write(&records, &name, thread, number);
                                }
                                if stat {
                                    let _ = sender.send(records);
                                }
                                if failed {
                                    break;
                                }
                            }'''),(CM,"                            let mut number = u32::default();\n",""),(CM,"use std::io::BufRead;","use std::io::BufRead;\nuse std::io::Write;"),
  (CM,TIMER_OLD,'''                        let start = std::time::Instant::now();
                        loop {
                            let left = duration.saturating_sub(start.elapsed());
                            if left.is_zero() {
                                break;
                            }
                            std::thread::sleep(left.min(Duration::from_secs(86400)));
                        }
                        continuous.store(false, Ordering::SeqCst)''')]),
dict(id="run-one-print",edits=[(CM,'''                                let records = context.records();
                                records.iter().for_each(|record| println!("{}", record));''','''                                let records = context.records();
                                let report = records.iter().map(|record| format!("{}\\n", record)).collect::<String>();
                                print!("{}", report);'''),
  (CM,'''                    let records = context.records();
                    records.iter().for_each(|record| println!("{}", record));''','''                    let records = context.records();
                    let mut report = String::new();
                    for record in records.iter() {
                        report.push_str(&record.to_string());
                        report.push('\\n');
                    }
                    print!("{}", report);'''),
  (CM,STAT_OLD,'''            receiver.iter().flatten().for_each(|record| {
                let millis = record.time.total.as_millis();
                stats.add(&record.name, millis)
            });
            let text = stats.to_string();
            print!("{}", text);''')]),
dict(id="run-condvar-timer",edits=[(CM,TIMER_OLD,'''                        let lock = std::sync::Mutex::new(());
                        let bell = std::sync::Condvar::new();
                        let mut guard = lock.lock().unwrap();
                        let start = std::time::Instant::now();
                        while let Some(left) = duration.checked_sub(start.elapsed()).filter(|left| !left.is_zero()) {
                            guard = bell.wait_timeout(guard, left.min(Duration::from_secs(1000000))).unwrap().0;
                        }
                        drop(guard);
                        continuous.store(false, Ordering::Release)'''),(CM,"while continuous.load(Ordering::Relaxed)","while continuous.load(Ordering::Acquire)")]),
dict(id="run-mutex-flag",edits=[(CM,"Arc::new(AtomicBool::new(true))","Arc::new(std::sync::Mutex::new(true))"),(CM,"while continuous.load(Ordering::Relaxed) &&","while *continuous.lock().unwrap() &&"),
  (CM,"                        std::thread::sleep(duration);\n                        continuous.store(false, Ordering::Relaxed)","                        std::thread::sleep(duration);\n                        *continuous.lock().unwrap() = false;"),
  (CM,"fn handle_interrupt(continuous: Arc<AtomicBool>) {","fn handle_interrupt(continuous: Arc<std::sync::Mutex<bool>>) {"),(CM,"        continuous.store(false, Ordering::Relaxed);\n","        *continuous.lock().unwrap() = false;\n"),
  (CM,"use std::sync::atomic::AtomicBool;\nuse std::sync::atomic::Ordering;\n","")]),
dict(id="stat-shared",edits=[(CM,STAT_OLD,'''            let mut all = Vec::new();
            while let Ok(records) = receiver.recv() {
                all.extend(records.into_iter().map(|record| (record.name, record.time.total)));
            }
            for (name, total) in all.iter().rev() {
                stats.add(name, total.as_millis());
            }
            if !all.is_empty() {
                print!("{}", stats);
            }'''),
  (SA,"HashMap<String, Stat>","BTreeMap<String, Stat>"),(SA,"use std::collections::HashMap;","use std::collections::BTreeMap;"),
  (SA,'''        self.avg = self.sum / self.count;
        if millis > self.max {
            self.max = millis;
        }
        if millis < self.min {
            self.min = millis;
        }''','''        self.max = self.max.max(millis);
        self.min = self.min.min(millis);
        self.avg = self.sum.checked_div(self.count).unwrap_or_default();''')]),
dict(id="files-iterative",edits=[(CM,'''        let mut entries = std::fs::read_dir(path)?
            .map(|r| r.map(|e| e.path()))
            .collect::<Result<Vec<PathBuf>, std::io::Error>>()?;
        entries.sort();
        for entry in entries {
            read(entry, text)?;
        }
    } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
        text.push_str(&std::fs::read_to_string(path)?);
        text.push('\\n');
    }
    Ok(())''','''        let mut names = Vec::new();
        for entry in std::fs::read_dir(&path)? {
            names.push(entry?.file_name());
        }
        names.sort_unstable();
        return names.into_iter().try_for_each(|name| read(path.join(name), text));
    }
    let is_source = path.extension().is_some_and(|extension| extension == "fan");
    if is_source && path.is_file() {
        use std::io::Read;
        let mut file = File::open(path)?;
        file.read_to_string(text)?;
        *text += "\\n";
    }
    Ok(())'''),
  (CM,'''        let file = match File::create(&file) {''','''        let file = match std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&file) {''')]),
dict(id="repl-read-line",edits=[(CM,'''    let mut lines = stdin().lock().lines();
    let mut context = Context::new();
    loop {
        match lines.next() {
            Some(Ok(text)) => {
                if text == "exit" {
                    break;
                }
                if text.trim().is_empty() {
                    continue;
                }
                context = eval(text, Some(context));
            }
            Some(Err(error)) if error.kind() == std::io::ErrorKind::InvalidData => continue,
            _ => break,
        }
    }''','''    let mut input = std::io::BufReader::with_capacity(512, stdin());
    let mut context = Context::new();
    let mut bytes = Vec::new();
    loop {
        bytes.clear();
        match input.read_until(b'\\n', &mut bytes) {
            Ok(0) | Err(_) => break,
            Ok(_) => {}
        }
        if bytes.last() == Some(&b'\\n') {
            bytes.pop();
            if bytes.last() == Some(&b'\\r') {
                bytes.pop();
            }
        }
        let text = match std::str::from_utf8(&bytes) {
            Ok(text) => text.to_string(),
            Err(_) => continue,
        };
        if text == "exit" {
            return;
        }
        if !text.trim().is_empty() {
            context = eval(text, Some(context));
        }
    }'''),(CM,'''            match eval_block(&exprs, &mut context) {
                Ok(value) => {
                    println!("{}", value);
                }
                Err(error) => println!("{}", error),
            }
        }
        Err(error) => println!("{}", error),
    }
    context''','''            let shown = match eval_block(&exprs, &mut context) {
                Ok(value) => value.to_string(),
                Err(error) => error,
            };
            println!("{}", shown);
        }
        Err(error) => println!("{}", error),
    }
    context''')]),
dict(id="response-buffered",edits=[(RE,'''        let mut buf = Vec::with_capacity(1);
        while let Err(error) = reader.read(&mut buf) {
            if error.kind() != std::io::ErrorKind::Interrupted {
                return Err(Error::ReadFailed(error));
            }
        }
        if let Some(mut f) = f {
            f()
        }
        let mut line = String::from_utf8(buf).unwrap_or_default();
        reader.read_line(&mut line).map_err(Error::ReadFailed)?;''','''        loop {
            match reader.fill_buf() {
                Ok(_) => break,
                Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {}
                Err(error) => return Err(Error::ReadFailed(error)),
            }
        }
        if let Some(mut f) = f {
            f()
        }
        let mut bytes = Vec::new();
        reader.read_to_end(&mut bytes).map_err(Error::ReadFailed)?;
        let mut reader = std::io::Cursor::new(bytes);
        let mut line = String::new();
        reader.read_line(&mut line).map_err(Error::ReadFailed)?;'''),
  (CL,"BufReader::new(stream)","BufReader::with_capacity(1000, stream)"),
  (CL,'''        let end = Instant::now();
        time.total = end - start;''','''        time.total = start.elapsed();''')]),
dict(id="request-one-write",edits=[(RQ,'''        let mut writer = BufWriter::new(writer);
        write!(writer, "{} {} {}\\r\\n", self.method, self.url.path, self.version).map_err(Error::WriteFailed)?;
        for header in self.headers.iter() {
            write!(writer, "{}: {}\\r\\n", header.name, header.value).map_err(Error::WriteFailed)?;
        }
        write!(writer, "\\r\\n").map_err(Error::WriteFailed)?;
        content.write(&mut writer)?;
        writer.flush().map_err(|_e| Error::WriteFlushFailed)?;
        Ok(())''','''        let mut head = format!("{} {} {}\\r\\n", self.method, self.url.path, self.version);
        self.headers.iter().for_each(|header| head.extend([&header.name, ": ", &header.value, "\\r\\n"]));
        head.push_str("\\r\\n");
        let mut writer = BufWriter::with_capacity(3000, writer);
        writer.write_all(head.as_bytes()).map_err(Error::WriteFailed)?;
        content.write(&mut writer)?;
        writer.flush().map_err(|_e| Error::WriteFlushFailed)''')]),
dict(id="connect-extracted",edits=[(ST,'''            let sender = sender.clone();
            std::thread::spawn(move || {
                // debug!("trying to connect to {}", addr);
                let _ = sender.send((addr, Self::connect_timeout(&addr, timeout)));
            });
            if let Ok((addr, result)) = receiver.recv_timeout(RACE) {
                if let Some(stream) = handle_result(addr, result) {
                    return Ok(stream);
                }
            }''','''            Self::attempt(addr, timeout, sender.clone());
            let deadline = Instant::now() + RACE;
            match receiver.recv_timeout(deadline.saturating_duration_since(Instant::now())) {
                Ok((addr, result)) => match handle_result(addr, result) {
                    Some(stream) => return Ok(stream),
                    None => continue,
                },
                Err(_) => continue,
            }'''),(ST,'''    fn connect_timeout(addr: &SocketAddr''','''    fn attempt(addr: SocketAddr, timeout: Option<Duration>, sender: std::sync::mpsc::Sender<(SocketAddr, Result<TcpStream, Error>)>) {
        let run = move || {
            let result = Self::connect_timeout(&addr, timeout);
            sender.send((addr, result)).unwrap_or_default();
        };
        let _ = std::thread::Builder::new().name(format!("connect {}", addr)).spawn(run);
    }

    fn connect_timeout(addr: &SocketAddr'''),
  (ST,"for (addr, result) in receiver.iter() {","while let Ok((addr, result)) = receiver.recv() {")]),
dict(id="tls-nodelay-config",edits=[(ST,'''        let attach = Box::new(rustls::ClientConnection::new(config, name).map_err(|_e| Error::TlsHandshakeFailed)?);
        let (stream, resolve) = Self::connect_tcp(host, port, connect_tiomeout, read_tiomeout)?;
        Ok(Stream::Cipher { attach, stream, resolve })''','''        let connection = rustls::ClientConnection::new(config.clone(), name);
        let attach = match connection {
            Ok(connection) => Box::new(connection),
            Err(_e) => return Err(Error::TlsHandshakeFailed),
        };
        let (stream, resolve) = Self::connect_tcp(host, port, connect_tiomeout, read_tiomeout)?;
        let _ = stream.set_nodelay(true);
        Ok(Stream::Cipher { attach, stream, resolve })''')]),
dict(id="writer-two-writes",edits=[(WR,'''        buffer.extend_from_slice(&data);
        buffer.extend_from_slice(MARKER);
        let _ = self.w.write_all(&buffer);''','''        data.extend_from_slice(MARKER);
        let _ = self.w.write_all(&buffer).and_then(|_| self.w.write_all(&data));'''),
  (WR,'''    loop {
        if z <= 0x7F {
            buffer.push((z & 0x7F) as u8);
            break;
        } else {
            buffer.push((0x80 | (z & 0x7F)) as u8);
            z >>= 7;
        }
    }''','''    while z > 0x7F {
        buffer.push(0x80 | (z & 0x7F) as u8);
        z >>= 7;
    }
    buffer.push(z as u8);''')]),
dict(id="writer-small-blocks",edits=[(WR,'''            encode_count(record.request.headers.len(), &mut data);
            for header in record.request.headers.iter() {
                encode_long(2, &mut data);
                encode_bytes(header.name.as_bytes(), &mut data);
                encode_bytes(header.value.as_bytes(), &mut data);
                encode_long(0, &mut data);
            }
            encode_long(0, &mut data);''','''            for header in record.request.headers.iter() {
                encode_long(1, &mut data);
                encode_long(2, &mut data);
                encode_bytes(header.name.as_bytes(), &mut data);
                encode_bytes(header.value.as_bytes(), &mut data);
                encode_long(0, &mut data);
            }
            encode_long(0, &mut data);''')]),
dict(id="context-btree",edits=[(CX,'''        self.inner.insert(key, value);''','''        match self.inner.get_mut(&key) {
            Some(old) => *old = value,
            None => {
                self.inner.insert(key, value);
            }
        }'''),(CX,'''        let mut flag = true;
        for assert in self.asserts.iter() {
            flag &= assert.result;
            writeln!(
                f,
                "{} => {} {} {} => {}",
                assert.expr, assert.left, assert.compare, assert.right, assert.result
            )?
        }''','''        for Assert { expr, left, compare, right, result } in &self.asserts {
            writeln!(f, "{expr} => {left} {compare} {right} => {result}")?
        }
        let flag = self.asserts.iter().all(|assert| assert.result);'''),
  (CX,"        std::mem::take(&mut self.records)","        self.records.drain(..).collect()")]),
dict(id="eval-template-forward",edits=[(EV,'''            let matches = regex.find_iter(message);
            let mut ranges = Vec::new();
            matches.for_each(|m| ranges.push((m.as_str()[1..m.as_str().len() - 1].trim(), m.range())));
            ranges.reverse();
            let mut message = message.to_string();
            for (variable, range) in ranges.into_iter() {
                let variable = match context.get(variable) {
                    Some(variable) => variable.to_string(),
                    None => Value::Null.to_string(),
                };
                message.replace_range(range, variable.as_str());
            }''','''            let mut filled = String::with_capacity(message.len());
            let mut end = 0;
            for captures in regex.captures_iter(message) {
                let whole = captures.get(0).unwrap();
                filled.push_str(&message[end..whole.start()]);
                filled.push_str(&context.get(&captures[1]).unwrap_or(&Value::Null).to_string());
                end = whole.end();
            }
            filled.push_str(&message[end..]);
            let message = filled;'''),
  (EV,'''                        match token.kind {
                            Kind::Lt => Some(left < right),
                            Kind::Gt => Some(left > right),
                            Kind::Le => Some(left <= right),
                            Kind::Ge => Some(left >= right),
                            Kind::Eq => Some(left == right),
                            Kind::Ne => Some(left != right),
                            _ => None,
                        }''','''                        let order = left.partial_cmp(&right);
                        match token.kind {
                            Kind::Lt => Some(order.is_some_and(|o| o.is_lt())),
                            Kind::Gt => Some(order.is_some_and(|o| o.is_gt())),
                            Kind::Le => Some(order.is_some_and(|o| o.is_le())),
                            Kind::Ge => Some(order.is_some_and(|o| o.is_ge())),
                            Kind::Eq => Some(left == right),
                            Kind::Ne => Some(!(left == right)),
                            _ => None,
                        }''')]),
dict(id="eval-operands-first",edits=[(EV,'''    match token.kind {
        Kind::Add => eval_expr(left, context)? + eval_expr(right, context)?,
        Kind::Sub => eval_expr(left, context)? - eval_expr(right, context)?,''','''    if matches!(token.kind, Kind::Add | Kind::Sub) {
        let left = eval_expr(left, context)?;
        let right = eval_expr(right, context)?;
        return if token.kind == Kind::Add { left + right } else { left - right };
    }
    match token.kind {'''),(EV,'''    let mut result = Value::Null;
    for expr in exprs {
        result = eval_expr(expr, context)?;
    }
    Ok(result)''','''    exprs.iter().try_fold(Value::Null, |_, expr| eval_expr(expr, context))'''),
  (EV,'''    let mut values = Vec::with_capacity(items.len());
    for item in items {
        values.push(eval_expr(item, context)?);
    }
    Ok(values)''','''    items.iter().map(|item| eval_expr(item, context)).collect()'''),
  (EV,'''            let index = index as usize;
            if index < items.len() {
                let item = items.remove(index);
                Ok(item)
            } else {
                Ok(Value::Null)
            }''','''            match usize::try_from(index) {
                Ok(index) if index < items.len() => Ok(items.swap_remove(index)),
                _ => Ok(Value::Null),
            }''')]),
dict(id="value-rewritten",edits=[(VA,'''            Value::Integer(integer) => f.debug_tuple("Integer").field(integer).finish(),''','''            Value::Integer(integer) => write!(f, "Integer({})", integer),'''),
  (VA,'''                None => Err(format!("integer overflow: {} + {}", left, right)),''','''                None => Err(format!("integer overflow in {} + {}", left, right)),'''),
  (NA,'''            ranges.reverse();
            let variables = values.iter();
            if variables.len() != ranges.len() {
                Err(format!("wrong number of arguments. got={}, want={}", variables.len(), ranges.len()))
            } else {
                for (range, variable) in ranges.into_iter().zip(variables) {
                    string.replace_range(range, &variable.to_string());
                }
                Ok(Value::String(string))
            }''','''            values.reverse();
            if values.len() != ranges.len() {
                return Err(format!("wrong number of arguments. got={}, want={}", values.len(), ranges.len()));
            }
            for (range, variable) in ranges.into_iter().zip(values).rev() {
                string.replace_range(range, &variable.to_string());
            }
            Ok(Value::String(string))'''),
  (NA,'''            println!("{}", value);
            Ok(Value::Null)''','''            let line = format!("{}\\n", value);
            print!("{}", line);
            Ok(Value::Null)''')]),
dict(id="parser-helpers",edits=[(PA,'''        let mut exprs = Vec::new();
        while !self.peek_token_is(end) {
            self.next_token();
            exprs.push(self.parse_expr(u8::MIN)?);
            if !self.peek_token_is(end) {
                self.peek_token_expect(Kind::Comma)?;
            }
        }
        self.peek_token_expect(end)?;
        Ok(exprs)''','''        let mut exprs = Vec::new();
        loop {
            if self.peek_token_is(end) {
                break;
            }
            self.next_token();
            let expr = self.parse_expr(u8::MIN)?;
            exprs.push(expr);
            if self.peek_token_is(end) {
                break;
            }
            self.peek_token_expect(Kind::Comma)?;
        }
        self.peek_token_expect(end).map(|_| exprs)'''),
  (LX,'''                    let mut string = String::from(char);
                    while let Some(peek) = chars.peek() {
                        if peek.is_ascii_alphanumeric() || *peek == '_' {
                            string.push(*peek);
                            chars.next();
                        } else {
                            break;
                        }
                    }''','''                    let mut string = String::from(char);
                    while let Some(next) = chars.next_if(|peek| peek.is_ascii_alphanumeric() || *peek == '_') {
                        string.push(next);
                    }'''),
  (LX,'''                    if let Some(peek @ '=') = chars.peek() {
                        let literal = String::from_iter([char, *peek]);
                        chars.next();
                        (Kind::Eq, literal)
                    } else {''','''                    if chars.next_if_eq(&'=').is_some() {
                        (Kind::Eq, "==".to_string())
                    } else {''')]),
dict(id="url-split",edits=[(URL,'''                let (host, path) = if let Some(i) = str.find('/') {
                    (&str[..i], &str[i..])
                } else {
                    (str, "/")
                };
                let (host, port) = if let Some((host, port)) = host.strip_prefix('[').and_then(|host| host.split_once(']')) {
                    // the colons inside the brackets belong to an IPv6 address
                    (host, port.strip_prefix(':').and_then(|port| port.parse::<u16>().ok()))
                } else if let Some(j) = host.find(':') {
                    (&host[..j], host[j + 1..].parse::<u16>().ok())
                } else {
                    (host, None)
                };''','''                let (host, path) = match str.find('/') {
                    Some(i) => str.split_at(i),
                    None => (str, "/"),
                };
                let bracketed = host.strip_prefix('[').and_then(|host| host.split_once(']'));
                let (host, port) = match (bracketed, host.split_once(':')) {
                    (Some((host, port)), _) => (host, port.strip_prefix(':').and_then(|port| port.parse().ok())),
                    (None, Some((host, port))) => (host, port.parse().ok()),
                    (None, None) => (host, None),
                };'''),(MN,'''    let duration = match last {
        Some('s') => Duration::from_secs(value),
        Some('m') => Duration::from_secs(value.checked_mul(60).ok_or(format!("Number too large: {}", value))?),
        Some('h') => Duration::from_secs(value.checked_mul(3600).ok_or(format!("Number too large: {}", value))?),''','''    let seconds = |unit: u64| value.checked_mul(unit).map(Duration::from_secs).ok_or_else(|| format!("Number too large: {}", value));
    let duration = match last {
        Some('s') => seconds(1)?,
        Some('m') => seconds(60)?,
        Some('h') => seconds(60 * 60)?,''')]),
dict(id="timing-extra-clocks",edits=[(CL,'''        let read = Instant::now();''','''        let written = Instant::now();
        let _ = written.duration_since(start);
        let read = Instant::now();'''),(EV,"            let client = http::Client::default();","            let begin = std::time::Instant::now();\n            let client = http::Client::default();"),
  (EV,"            let map = response.to_map();","            let _ = begin.elapsed();\n            let map = response.to_map();")]),
dict(id="scoped-threads",edits=[(CM,'''                handles.push(std::thread::spawn(move || {
                    match eval_block(test.as_ref(), &mut context) {''','''                handles.push(std::thread::Builder::new().name(name.clone()).spawn(move || {
                    match eval_block(test.as_ref(), &mut context) {'''),
   (CM,'''                    stat.then(|| sender.send(records));
                }));
            }
        }
    }''','''                    stat.then(|| sender.send(records));
                }).expect("thread"));
            }
        }
    }'''),(CM,'''    std::mem::drop(sender);
    for handle in handles {
        let _ = handle.join();
    }''','''    drop(sender);
    while let Some(handle) = handles.pop() {
        handle.join().unwrap_or_default();
    }''')]),
dict(id="happy-one-loop",edits=[(ST,'''        for addr in rotate(a.into_iter(), b.into_iter()) {
            let sender = sender.clone();
            std::thread::spawn(move || {
                // debug!("trying to connect to {}", addr);
                let _ = sender.send((addr, Self::connect_timeout(&addr, timeout)));
            });
            if let Ok((addr, result)) = receiver.recv_timeout(RACE) {
                if let Some(stream) = handle_result(addr, result) {
                    return Ok(stream);
                }
            }
        }

        // We must drop this handle to the sender in order to properly disconnect the channel
        // when all the threads are finished.
        drop(sender);

        // This loop waits for replies from the background threads. It will automatically timeout
        // when the background threads' connection attempts timeout and the senders are dropped.
        // This loop is reached when some of the threads do not complete within the race delay.
        for (addr, result) in receiver.iter() {
            if let Some(stream) = handle_result(addr, result) {
                return Ok(stream);
            }
        }
''','''        let mut pending = 0usize;
        let mut rest = rotate(a.into_iter(), b.into_iter());
        loop {
            let next = rest.next();
            let last = next.is_none();
            if let Some(addr) = next {
                let sender = sender.clone();
                pending += 1;
                std::thread::Builder::new()
                    .name(format!("connect-{}", addr))
                    .spawn(move || {
                        let result = Self::connect_timeout(&addr, timeout);
                        sender.send((addr, result)).unwrap_or_default();
                    })
                    .map_err(|_e| Error::NoConnectionAvailable)?;
            } else if pending == 0 {
                break;
            }
            let received = if last { receiver.recv().ok() } else { receiver.recv_timeout(RACE).ok() };
            if let Some((addr, result)) = received {
                pending -= 1;
                if let Some(stream) = handle_result(addr, result) {
                    return Ok(stream);
                }
            }
        }
        drop(sender);
''')]),
dict(id="tls-shared-config",edits=[(ST,'''        use rustls_platform_verifier::BuilderVerifierExt;
        let config = Arc::new(rustls::ClientConfig::builder().with_platform_verifier().with_no_client_auth());
''','''        let config = tls_config();
'''),(ST,'''fn rotate<T,''','''/// The configuration of every connection, built at the first of them.
fn tls_config() -> Arc<rustls::ClientConfig> {
    use rustls_platform_verifier::BuilderVerifierExt;
    static CONFIG: std::sync::OnceLock<Arc<rustls::ClientConfig>> = std::sync::OnceLock::new();
    CONFIG
        .get_or_init(|| {
            let mut config = rustls::ClientConfig::builder().with_platform_verifier().with_no_client_auth();
            config.resumption = rustls::client::Resumption::disabled();
            Arc::new(config)
        })
        .clone()
}

fn rotate<T,''')]),
dict(id="response-lines-iterator",edits=[(RE,'''        loop {
            let mut line = String::new();
            reader.read_line(&mut line).map_err(Error::ReadFailed)?;
            if line.trim().is_empty() {
                break;
            } else if let''','''        for line in reader.by_ref().lines() {
            let line = line.map_err(Error::ReadFailed)?;
            if line.trim().is_empty() {
                break;
            }
            if let'''),(RE,'''        let mut body = String::default();
        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;''','''        let mut bytes = Vec::new();
        reader.read_to_end(&mut bytes).map_err(Error::ReadFailed)?;
        let body = String::from_utf8(bytes)
            .map_err(|_| Error::ReadFailed(std::io::Error::new(std::io::ErrorKind::InvalidData, "stream did not contain valid UTF-8")))?;''')]),
dict(id="response-to-map-entry",edits=[(RE,'''            match headers.get_mut(&header.name) {
                Some(Value::Array(array)) => array.push(Value::String(header.value.to_string())),
                _ => {
                    headers.insert(header.name.to_string(), Value::Array(vec![Value::String(header.value.to_string())]));
                }
            }''','''            let value = Value::String(header.value.clone());
            if let Value::Array(array) = headers.entry(header.name.clone()).or_insert_with(|| Value::Array(Vec::new())) {
                array.push(value);
            }'''),(RE,'''        if let Ok(Source { exprs, .. }) = Parser::new(&self.body).parse() {
            if let Some(expr) = exprs.first() {
                map.insert(String::from("json"), expr.eval());
            }
        }
        map''','''        let json = match Parser::new(&self.body).parse() {
            Ok(Source { exprs, .. }) => exprs.first().map(|expr| expr.eval()),
            Err(_) => None,
        };
        map.extend(json.map(|json| (String::from("json"), json)));
        map''')]),
dict(id="regex-static",edits=[(EV,'''            let regex = regex::Regex::new(r"\\{\\s*([a-zA-Z_][a-zA-Z0-9_]*)\\s*\\}").unwrap();
            let matches''','''            static REGEX: std::sync::OnceLock<regex::Regex> = std::sync::OnceLock::new();
            let regex = REGEX.get_or_init(|| regex::Regex::new(r"\\{\\s*([A-Za-z_][A-Za-z0-9_]*)\\s*\\}").unwrap());
            let matches'''),(NA,'''            let regex = regex::Regex::new(r"\\{\\s*([a-zA-Z_][a-zA-Z0-9_]*)\\s*\\}").unwrap();''','''            static REGEX: std::sync::LazyLock<regex::Regex> =
                std::sync::LazyLock::new(|| regex::Regex::new(r"\\{\\s*([a-zA-Z_][a-zA-Z0-9_]*)\\s*\\}").unwrap());
            let regex = &*REGEX;''')]),
dict(id="stat-vector",edits=[(SA,'''    stats: HashMap<String, Stat>,''','''    stats: std::collections::BTreeMap<String, Stat>,'''),(SA,'''use std::collections::HashMap;
''',''),(SA,'''        match self.stats.get_mut(name) {
            Some(stat) => {
                stat.add(millis);
            }
            None => {
                self.stats.insert(name.to_owned(), Stat::new(millis));
            }
        };''','''        self.stats
            .entry(name.to_string())
            .and_modify(|stat| stat.add(millis))
            .or_insert_with(|| Stat::new(millis));'''),(SA,'''        self.avg = self.sum / self.count;
        if millis > self.max {
            self.max = millis;
        }
        if millis < self.min {
            self.min = millis;
        }''','''        self.max = self.max.max(millis);
        self.min = self.min.min(millis);
        self.avg = self.sum / self.count;'''),(SA,'''        for (name, stat) in self.stats.iter() {
            writeln!(f, "{} {}", name, stat)?
        }
        Ok(())''','''        self.stats.iter().try_for_each(|(name, stat)| writeln!(f, "{name} {stat}"))''')]),
dict(id="timer-slices",edits=[(CM,TIMER_OLD,'''                        let start = std::time::Instant::now();
                        while let Some(left) = duration.checked_sub(start.elapsed()).filter(|left| !left.is_zero()) {
                            std::thread::sleep(left.min(Duration::from_millis(500)));
                            if !continuous.load(Ordering::Relaxed) {
                                return;
                            }
                        }
                        continuous.store(false, Ordering::Relaxed)''')]),
dict(id="flag-seqcst-swap",edits=[(CM,'''while continuous.load(Ordering::Relaxed) && number < maximun {''','''while number < maximun && continuous.load(Ordering::SeqCst) {'''),(CM,TIMER_OLD,'''                        std::thread::sleep(duration);
                        let _ = continuous.swap(false, Ordering::SeqCst);'''),(CM,'''    let _ = ctrlc::set_handler(move || {
        continuous.store(false, Ordering::Relaxed);
    });''','''    let handler = move || continuous.store(false, Ordering::Release);
    if ctrlc::set_handler(handler).is_err() {
        // another handler is there already
    }''')]),
dict(id="run-function",edits=[("lib/src/lib.rs","use context::Record;","pub use context::Record;"),("lib/src/lib.rs","use syntax::Expr;","pub use syntax::Expr;"),(CM,LOOP_OLD,'''                            while continuous.load(Ordering::Relaxed) {
                                if number >= maximun || !run(&test, &mut context, &name, thread, number, &mut writer, stat.then_some(&sender)) {
                                    break;
                                }
                                number += 1;
                            }'''),(CM,'''fn read_to_string(path: PathBuf)''','''/// One iteration of a test.
fn run(
    test: &[lib::Expr],
    context: &mut Context,
    name: &str,
    thread: u32,
    number: u32,
    writer: &mut Option<Writer<File>>,
    sender: Option<&std::sync::mpsc::Sender<Vec<lib::Record>>>,
) -> bool {
    let result = eval_block(test, context);
    let failed = result.is_err();
    if let Err(error) = result {
        println!("{}", error);
    }
    let records = context.records();
    let text: String = records.iter().map(|record| format!("{}\\n", record)).collect();
    print!("{}", text);
    if let Some(writer) = writer.as_mut() {
        writer.write(&records, name, thread, number);
    }
    if let Some(sender) = sender {
        let _ = sender.send(records);
    }
    !failed
}

fn read_to_string(path: PathBuf)''')]),
dict(id="stdout-buffered-flush",edits=[(CM,LOOP_OLD,LOOP_OLD.replace('''records.iter().for_each(|record| println!("{}", record));''','''{
                                    use std::io::Write;
                                    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
                                    for record in records.iter() {
                                        writeln!(out, "{}", record).expect("stdout");
                                    }
                                    out.flush().expect("stdout");
                                }'''))]),
dict(id="writer-bufwriter",edits=[(CM,'''        Writer::new(file)
''','''        Writer::new(std::io::LineWriter::with_capacity(1 << 20, file).into_inner().expect("nothing is buffered"))
''')]),
dict(id="duration-split",edits=[(MN,'''    let mut chars = s.chars();
    let last = chars.next_back();
    let value = match chars.as_str().parse::<u64>() {
        Ok(value) => value,
        Err(_) => return Err(format!("Invalid number: {}", chars.as_str())),
    };
    let duration = match last {
        Some('s') => Duration::from_secs(value),
        Some('m') => Duration::from_secs(value.checked_mul(60).ok_or(format!("Number too large: {}", value))?),
        Some('h') => Duration::from_secs(value.checked_mul(3600).ok_or(format!("Number too large: {}", value))?),
        Some(c) => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
        None => return Err("Time unit needed, for example 1s or 2m".to_string()),
    };
    Ok(duration)''','''    let at = s.char_indices().last().map_or(0, |(at, _)| at);
    let (digits, unit) = s.split_at(at);
    let value: u64 = digits.parse().map_err(|_| format!("Invalid number: {}", digits))?;
    let factor = match unit {
        "s" => 1,
        "m" => 60,
        "h" => 60 * 60,
        "" => return Err("Time unit needed, for example 1s or 2m".to_string()),
        c => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
    };
    value.checked_mul(factor).map(Duration::from_secs).ok_or_else(|| format!("Number too large: {}", value))''')]),
dict(id="client-checkpoints",edits=[(CL,'''        time.resolve = stream.resolve();
        time.connect = start.elapsed() - time.resolve;
''','''        let connected = Instant::now();
        time.resolve = stream.resolve();
        time.connect = (connected - start) - time.resolve;
'''),(CL,'''        let read = Instant::now();
''','''        let read = Instant::now();
        time.write = read - connected;
'''),(CL,'''        time.read = read.elapsed() - time.delay;
        let end = Instant::now();
        time.total = end - start;
        time.end = SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default();
        time.write = time.total - time.resolve - time.connect - time.read - time.delay;
''','''        let end = Instant::now();
        time.end = SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default();
        time.read = (end - read) - time.delay;
        time.total = end - start;
''')]),
dict(id="lexer-helper",edits=[(LX,'''                    let mut string = String::from(char);
                    while let Some(peek) = chars.peek() {
                        if peek.is_ascii_alphanumeric() || *peek == '_' {
                            string.push(*peek);
                            chars.next();
                        } else {
                            break;
                        }
                    }
''','''                    let mut string = String::from(char);
                    while let Some(next) = chars.next_if(|c| *c == '_' || c.is_ascii_alphanumeric()) {
                        string.push(next);
                    }
'''),(LX,'''                    let mut string = String::new();
                    while let Some(peek) = chars.peek() {
                        if *peek == '"' {
                            chars.next();
                            break;
                        } else {
                            string.push(*peek);
                            chars.next();
                        }
                    }
''','''                    let string: String = chars.by_ref().take_while(|c| *c != '"').collect();
'''),(LX,'''                    let mut has_dot = false;
                    while let Some(peek) = chars.peek() {
                        if peek.is_ascii_digit() || *peek == '.' {
                            if *peek == '.' {
                                has_dot = true
                            }
                            string.push(*peek);
                            chars.next();
                        } else {
                            break;
                        }
                    }
                    if has_dot {''','''                    string.extend(std::iter::from_fn(|| chars.next_if(|c| c.is_ascii_digit() || *c == '.')));
                    if string.contains('.') {''')]),
dict(id="native-forward",edits=[(NA,'''            let matches = regex.find_iter(&string);
            let mut ranges = Vec::new();
            matches.for_each(|m| ranges.push(m.range()));
            ranges.reverse();
            let variables = values.iter();
            if variables.len() != ranges.len() {
                Err(format!("wrong number of arguments. got={}, want={}", variables.len(), ranges.len()))
            } else {
                for (range, variable) in ranges.into_iter().zip(variables) {
                    string.replace_range(range, &variable.to_string());
                }
                Ok(Value::String(string))
            }''','''            let ranges: Vec<_> = regex.find_iter(&string).map(|m| m.range()).collect();
            if values.len() != ranges.len() {
                return Err(format!("wrong number of arguments. got={}, want={}", values.len(), ranges.len()));
            }
            let mut result = String::with_capacity(string.len());
            let mut at = 0;
            for (range, variable) in ranges.into_iter().zip(values.iter().rev()) {
                result += &string[at..range.start];
                result += &variable.to_string();
                at = range.end;
            }
            result += &string[at..];
            string = result;
            Ok(Value::String(string))''')]),
dict(id="request-format-head",edits=[(RQ,'''                if let Some((name, value)) = line.trim().split_once(':') {
                            serializer''','''                if let Some((name, value)) = line.trim().split_once(':') {
                            serializer''')]) if False else
dict(id="multipart-two-passes",edits=[(RQ,'''                    let mut files = Vec::new();
                    for line in lines.by_ref() {
                        if let Some((name, value)) = line.trim().split_once(':') {
                            let (name, value) = (name.trim(), value.trim());
                            if value.starts_with('@') {
                                files.push((name, Path::new(&value[1..value.len()])));
                            } else {
                                parts.add_text(name, value);
                            }
                            body.push_str(line);
                        }
                    }
                    // the file that was added last is sent first
                    for (name, path) in files.into_iter().rev() {
                        parts.add_file(name, path);
                    }''','''                    let mut fields = Vec::new();
                    for line in lines.by_ref() {
                        if let Some((name, value)) = line.trim().split_once(':') {
                            fields.push((name.trim(), value.trim()));
                            body += line;
                        }
                    }
                    for (name, value) in fields.iter().filter(|(_, value)| !value.starts_with('@')) {
                        parts.add_text(*name, *value);
                    }
                    // the file that was added last is sent first
                    for (name, path) in fields.iter().rev().filter_map(|(name, value)| value.strip_prefix('@').map(|path| (name, path))) {
                        parts.add_file(*name, Path::new(path));
                    }''')]),
dict(id="eval-let-clone-order",edits=[(EV,'''    let value = eval_expr(expr, context)?;
    context.set(name.to_owned(), value.to_owned());
    Ok(value)''','''    let value = eval_expr(expr, context)?;
    let copy = value.clone();
    context.set(name.clone(), value);
    Ok(copy)'''),(EV,'''            let index = index as usize;
            if index < items.len() {
                let item = items.remove(index);
                Ok(item)
            } else {
                Ok(Value::Null)
            }''','''            match usize::try_from(index) {
                Ok(index) if index < items.len() => Ok(items.swap_remove(index)),
                _ => Ok(Value::Null),
            }'''),(EV,'''                        let expr = format!("{} {} {}", left, token, right);
                        let left = eval_expr(left, &mut local).unwrap_or(Value::Null);
                        let right = eval_expr(right, &mut local).unwrap_or(Value::Null);''','''                        let expr = expr_text(left, token, right);
                        let (left, right) = (value_of(left, &mut local), value_of(right, &mut local));'''),(EV,'''fn compares(token: &Token)''','''fn expr_text(left: &Expr, token: &Token, right: &Expr) -> String {
    [left.to_string(), token.to_string(), right.to_string()].join(" ")
}

fn value_of(expr: &Expr, local: &mut Context) -> Value {
    match eval_expr(expr, local) {
        Ok(value) => value,
        Err(_) => Value::Null,
    }
}

fn compares(token: &Token)''')]),
dict(id="repl-owned-context",edits=[(CM,'''    let mut context = context.unwrap_or_default();
    match Parser::new(&text).parse() {
        Ok(Source { exprs, requests, .. }) => {
            context.extend(requests);
            match eval_block(&exprs, &mut context) {
                Ok(value) => {
                    println!("{}", value);
                }
                Err(error) => println!("{}", error),
            }
        }
        Err(error) => println!("{}", error),
    }
    context''','''    let mut context = match context {
        Some(context) => context,
        None => Context::new(),
    };
    let outcome = Parser::new(&text).parse().map_err(|error| error.to_string()).and_then(|source| {
        context.extend(source.requests);
        eval_block(&source.exprs, &mut context)
    });
    let line = outcome.map_or_else(|error| error, |value| value.to_string());
    println!("{line}");
    context''')]),
dict(id="all-tests-indexed",edits=[(CM,'''    handles.push(std::thread::spawn(move || {
        stat.then(|| {
            let mut stats = Stats::default();''','''    let receiver = Some(receiver).filter(|_| stat);
    handles.push(std::thread::spawn(move || {
        receiver.map(|receiver| {
            let mut stats = Stats::default();''')]),
]
