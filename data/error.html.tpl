<error><code>${out value=error_code /}</code><message>${out value=error_message /}</message></error>
