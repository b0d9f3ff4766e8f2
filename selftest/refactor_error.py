import re
F='src/error.rs'
src=open('/repo/'+F).read()
head,tail=src.split('\n#[cfg(test)]',1); tail='\n#[cfg(test)]'+tail
out={}
def mk(name,f):
    s=f(head); assert s!=head,name; out[name]=s+tail
def sub(s,a,b,n=1):
    assert s.count(a)>=1,a
    return s.replace(a,b,n) if n else s.replace(a,b)
def cut(s,a,b):
    i=s.index(a); return i,s.index(b,i)
def e1(s):
    i,j=cut(s,'    #[allow(clippy::option_map_or_none)]','// For extra type')
    return s[:i]+'''    let mut text = format!("{} ", "[Error]".red().bold());

    if let Some(path) = source_path {
        text.push_str(&format!(
            "{} ",
            format!("[{}]", path.to_string_lossy().code_str()).magenta(),
        ));
    }

    text.push_str(message);

    if let Some(listing) = listing {
        if !listing.is_empty() {
            text.push_str("\\n\\n");
            text.push_str(listing);
        }
    }

    Error {
        message: text,
        reason: reason.map(|reason| Rc::new(reason) as Rc<dyn error::Error>),
    }
}

'''+s[j:]
mk('e-throw-push',e1)
def e1b(s):
    i,j=cut(s,'    #[allow(clippy::option_map_or_none)]','// For extra type')
    return s[:i]+'''    let location = match source_path {
        Some(path) => format!(
            " {}",
            format!("[{}]", path.to_string_lossy().code_str()).magenta(),
        ),
        None => String::new(),
    };

    let code = match listing {
        Some(listing) if !listing.is_empty() => format!("\\n\\n{listing}"),
        _ => String::new(),
    };

    let reason: Option<Rc<dyn error::Error>> = match reason {
        Some(reason) => Some(Rc::new(reason)),
        None => None,
    };

    Error {
        message: format!("{}{} {}{}", "[Error]".red().bold(), location, message, code),
        reason,
    }
}

'''+s[j:]
mk('e-throw-parts',e1b)
def e1c(s):
    i,j=cut(s,'        message: if let Some(path)','        reason: reason.map_or')
    return s[:i]+'''        message: match (source_path, listing.filter(|listing| !listing.is_empty())) {
            (Some(path), Some(listing)) => format!(
                "{} {} {}\\n\\n{}",
                "[Error]".red().bold(),
                format!("[{}]", path.to_string_lossy().code_str()).magenta(),
                message,
                listing,
            ),
            (Some(path), None) => format!(
                "{} {} {}",
                "[Error]".red().bold(),
                format!("[{}]", path.to_string_lossy().code_str()).magenta(),
                message,
            ),
            (None, Some(listing)) => {
                format!("{} {}\\n\\n{}", "[Error]".red().bold(), message, listing)
            }
            (None, None) => format!("{} {}", "[Error]".red().bold(), message),
        },

'''+s[j:]
mk('e-throw-match',e1c)
def e2(s):
    i,j=cut(s,'        if let Some(reason) = &self.reason {','impl error::Error')
    return s[:i]+'''        write!(f, "{}", self.message)?;

        if let Some(reason) = &self.reason {
            write!(f, "\\n\\n{} {}", "Reason:".blue().bold(), reason)?;
        }

        Ok(())
    }
}

'''+s[j:]
mk('e-display-two',e2)
def e2b(s):
    i,j=cut(s,'        if let Some(reason) = &self.reason {','impl error::Error')
    return s[:i]+'''        f.write_str(&self.message)?;

        match &self.reason {
            None => Ok(()),
            Some(reason) => write!(f, "\\n\\n{} {}", "Reason:".blue().bold(), reason),
        }
    }
}

'''+s[j:]
mk('e-display-match',e2b)
def e3(s):
    i,j=cut(s,'        // Record the start of the line before','        // If we haven')
    s=s[:i]+'''        let line_start = pos;

        if line_start >= source_range.end {
            break;
        }

        pos = line_start + line.len() + 1;

'''+s[j:]
    return s
mk('e-listing-order',e3)
def e3b(s):
    i,j=cut(s,'        // Highlight the relevant','        // Record the line number')
    return s[:i]+'''        let section_end = min(source_range.end - line_start, trimmed_line.len());
        let section_start = if source_range.start > line_start {
            min(source_range.start - line_start, trimmed_line.len())
        } else {
            trimmed_line
                .find(|c: char| !c.is_whitespace())
                .unwrap_or(section_end)
        };

'''+s[j:]
mk('e-listing-end',e3b)
def e3c(s):
    i,j=cut(s,'        // Highlight the relevant','        // Record the line number')
    b=s[i:j]
    s=s[:i]+'''        let (section_start, section_end) = section(source_range, line_start, trimmed_line);

'''+s[j:]
    return s+'''
fn section(source_range: SourceRange, line_start: usize, line: &str) -> (usize, usize) {
    let end = min(source_range.end - line_start, line.len());

    if source_range.start > line_start {
        return (min(source_range.start - line_start, line.len()), end);
    }

    (line.find(|c: char| !c.is_whitespace()).unwrap_or(end), end)
}
'''
mk('e-listing-section',e3c)
def e4(s):
    i,j=cut(s,'    let gutter_width =','    // Determine whether')
    s=s[:i].replace('cmp::{max, min}','cmp::min')+s[i:]
    i,j=cut(s,'    let gutter_width =','    // Determine whether')
    return s[:i]+'''    let gutter_width = lines
        .iter()
        .map(|(line_number, _, _, _)| line_number.len())
        .max()
        .unwrap_or(0);

'''+s[j:]
mk('e-gutter-max',e4)
def e4b(s):
    i,j=cut(s,'    let gutter_width =','    // Determine whether')
    return s[:i]+'''    let mut gutter_width = 0;

    for (line_number, _, _, _) in &lines {
        gutter_width = max(gutter_width, line_number.len());
    }

'''+s[j:]
mk('e-gutter-for',e4b)
def e5(s):
    i=s.index('    // Render the code listing')
    return s[:i]+'''    let mut rendered = vec![];

    for (i, (line_number, line, section_start, section_end)) in lines.iter().enumerate() {
        let gutter = format!(
            "{} \\u{2502} ",
            line_number.pad(gutter_width, ' ', Alignment::Right, false),
        );
        let continuation = if i + 1 == lines.len() { " " } else { "\\u{250a}" };

        let overline = if colorized {
            String::new()
        } else if section_start == section_end {
            format!("\\n{} {}", " ".repeat(gutter_width), continuation)
        } else {
            format!(
                "\\n{} {} {}{}",
                " ".repeat(gutter_width),
                continuation,
                " ".repeat(*section_start),
                "\\u{203e}".repeat(section_end - section_start),
            )
        };

        rendered.push(format!(
            "{}{}{}{}{}",
            gutter.blue().bold(),
            &line[..*section_start],
            &line[*section_start..*section_end].red(),
            &line[*section_end..],
            overline,
        ));
    }

    rendered.join("\\n")
}
'''
mk('e-render-for',e5)
